"""C31  Leaving an optional argument out means its documented default; arguments can be given by position or by name."""
import builtins, copy, itertools, os, shutil
import numpy as np
from . import core, fake, lcmodel as lm, rawsim as rs
from .core import Check

H, BOX = .5, 60.
SNAPS = [(2, .09), (5, .04), (6, 0.)]
INF = float('inf')


class New:
    """An argument made anew for each call."""

    def __init__(self, make):
        self.make = make


RNG = New(lambda: np.random.default_rng(7))


class New2(New):
    """A list given as default: made anew, but may be left out."""

    def __init__(self, v):
        self.v = v

    def make(self):
        return copy.deepcopy(self.v)


class S:
    """One way of calling something.

    build: () -> (what is called, function that turns what it returns into what can be observed)
    req:   arguments that have to be given, in order;  opt: (name, default, other values), in order
    lead:  positional arguments before those;  fixed: optional arguments that are always given by name
    named: how many of the arguments may only be given by name ('all', or 0)"""

    def __init__(self, build, req=(), opt=(), lead=(), fixed=None, byname=False):
        self.build, self.req, self.opt, self.lead, self.fixed, self.byname = build, list(req), [tuple(o) for o in opt], list(lead), fixed or {}, byname


def fresh(v):
    if isinstance(v, New):
        return v.make()
    return v if callable(v) and not isinstance(v, (list, dict)) else copy.deepcopy(v)


def freeze(v, depth=0):
    """A hashable description of a value."""
    if v is None or isinstance(v, (bool, int, str, bytes)):
        return repr(v)
    if isinstance(v, (float, complex, np.number, np.bool_)):
        return repr(np.asarray(v).tolist())
    if isinstance(v, np.ndarray):
        return (v.shape, v.dtype.kind, v.tobytes() if v.dtype.kind != 'O' else repr(v.tolist()))
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((str(k), freeze(x, depth + 1)) for k, x in v.items()))
    if hasattr(v, 'n_properties') and hasattr(v, 'axes'):
        return grid(v)
    if hasattr(v, 'unit') and hasattr(v, 'value'):
        return (freeze(v.value), str(v.unit))
    if callable(v):
        return getattr(v, '__name__', 'function')
    return type(v).__name__


def grid(g):
    return ('grid', freeze(np.asarray(g.grid)) if g.grid_active else None, freeze([np.asarray(a) for a in g.axes]), freeze(np.asarray(g.pixel_size)), freeze(np.asarray(g.side_length)),
            freeze(np.asarray(g.center_point)), tuple(map(str, g.axunits)) if g.axunits is not None else None, str(g.gridunits), int(g.n_properties), freeze(np.asarray(g.fourier_space)))


class C(Check):
    id = 'C31'
    technique = 'exhaustive enumeration of calling forms: every public call x settings of its optional arguments x every subset (up to size 2, and all) of the arguments at their default left out x every split into positional and named arguments, on the real code'
    rule = 'one case = one setting of the optional arguments of one call, made in all forms; non-trivial if an argument that matters was left out'
    assumptions = ('plots are compared by their pixels',)
    chunk = 1

    def setup(self):
        import h5py, warnings
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from astropy.cosmology import FlatLambdaCDM
        from scipy.stats import uniform, beta
        from simim.galprops import line_co, line_densegas, line_fir, line_fir_yang, log10normal, sfr_behroozi13, sfr_ir, sfr_bethermin17, Prop, MultiProp
        from simim.galprops import galprops_am as am
        from simim.map import gridder as gd
        from simim.lightcone import LCMaker, SphereMaker, LCHandler, LCIterator
        from simim.siminterface import SimHandler
        from simim.siminterface._rawsiminterface import SimCatalogs
        from simim.instrument import Instrument, Detector
        from simim.instrument import noise_functions as nf, spatial_response as sp, spectral_response as sc
        from simim import constants
        lm.memoize_cosmology()
        self.h5py, self.plt = h5py, plt
        plt.show = lambda *a, **k: None
        plt.rcParams['figure.dpi'] = plt.rcParams['savefig.dpi'] = 25
        base = os.path.join(core.ROOT, 'sims')
        os.mkdir(base)
        self.base = base
        halos = {}
        for i in (2, 5, 6):
            d = lm.lattice(5, BOX, {2: (0, .3, .6), 5: (.2, .8, .1), 6: (.5, .4, .9)}[i], [5e11, 2e12, 1e12, 3e11, 1e13])
            t = np.arange(len(d['mass']))
            d['sfr'] = 1 + t / 8. + i
            for j, c in enumerate('xyz'):
                d['v_' + c] = 100 * np.cos(t + j + i)
            halos[i] = d
        units = {'sfr': ('Msun/yr', 0)}
        units.update({'v_' + c: ('km/s', 0) for c in 'xyz'})
        for sim in ('TNG300-1', 'TNG100-1'):
            p = os.path.join(base, sim)
            fake.write_sim(h5py, p, SNAPS if sim == 'TNG300-1' else [(2, .015), (5, .006), (6, 0.)], halos, box=BOX, h=H, name=sim, units=units)
            fake.register(sim, p)
        p = os.path.join(base, 'TNG100-2')
        haloes = {}
        for i, (idx, z) in enumerate([(1, 2.), (2, .2)]):
            m = np.array([5e9, 2e10, 8e10, 3e11, 6e11, 2e12, 5e12]) * (1 + .3 * i)
            haloes[idx] = dict(mass=m * H, vmax=200 * (m / 1e12) ** .2 * np.array([1., 1.3, 1., 1., 1.2, 1., 1.]), **{'pos_' + c: .1 + .05 * np.arange(7) for c in 'xyz'})
        fake.write_sim(h5py, p, [(1, 2.), (2, .2)], haloes, box=12., h=H, units={'vmax': ('km/s', 0)})
        fake.register('TNG100-2', p)
        mk = LCMaker('TNG300-1', 'given', 5., .7, redshift_min=.001, redshift_max=.1, minimum_mass=4e11)
        mk.build_lightcones(3, rng=self.script())
        mk.add_properties('sfr')
        self.lcpath = mk.lc_path
        self.pristine = os.path.join(core.ROOT, 'pristine')
        shutil.copytree(base, self.pristine)
        self.SimHandler, self.LCHandler = SimHandler, LCHandler
        self.scenes = self.define(locals())

    def script(self):
        return lm.Script([[.5, .25, .125], [.31, .87, .52], [.7, .1, .3]], lm.FLIPS[1:4], [[.4, .6, .5], [.62, .5, .7]], [.15, .8])

    def figure(self):
        out = []
        for n in self.plt.get_fignums():
            f = self.plt.figure(n)
            f.canvas.draw()
            out.append(freeze(np.asarray(f.canvas.buffer_rgba()).copy()))
        self.plt.close('all')
        return tuple(out)

    # ---------------------------------------------------------------- everything that can be called
    def define(self, L):
        out = {}
        N = lambda **k: k
        plain = lambda fn: lambda: (fn, freeze)
        co, hcn, fir, ya, be = L['line_co'], L['line_densegas'], L['line_fir'], L['line_fir_yang'], L['sfr_behroozi13']
        M = [1e9, 8e9, 3e11, 2e12, 1e13, 5e13] * 8
        SF = [.1, .5, 2., 30., 1000.] * 10
        Z = [.3, 1.2, 2.5, 1.1, .4, 5.5] * 8
        cosmo = L['FlatLambdaCDM'](H0=70, Om0=.3)
        arr = lambda v: New(lambda: np.array(v))
        rng = ('rng', RNG, [])
        add = lambda name, *a, **k: out.__setitem__(name, S(*a, **k))
        K = L['constants']
        add('keating16', plain(co.keating16), [('mass', arr(M))], [('m_min', 1e10, [1e8, 1e12]), ('A', 6.3e-7, [1e-6]), ('scatter_lco', True, [False]), ('sig_lco', .3, [.5]), rng])
        add('li16', plain(co.li16), [('sfr', arr(SF))], [('d_mf', 1., [1.3]), ('a', 1.37, [1.1]), ('b', -1.74, [.2]), ('nu_rest', K.nu_co10, [230.]), ('scatter_lco', True, [False]), ('sig_lco', .3, [.5]), rng])
        add('pullen13', plain(co.pullen13), [('mass', arr(M)), ('redshift', arr(Z)), ('cosmo', cosmo)], [('rand_f_duty', True, [False]), ('sf_length', .1, [.8]), rng])
        add('lidz11', plain(co.lidz11), [('mass', arr(M))], [('f_duty', .1, [.7]), ('rand_f_duty', True, [False]), rng])
        add('kamenetzky16', plain(co.kamenetzky16), [('sfr', arr(SF))], [('lines', New(lambda: np.arange(1, 14)), [[1, 5]]), ('d_mf', 1., [1.3]), ('fircor', .6, [.9]), ('scatter_lco', True, [False]), ('sig_lco', .3, [.5]), ('break_ulirgs', False, [True]), rng])
        add('hcn_gao', plain(hcn.hcn_gao), [('sfr', arr(SF))], [('d_mf', 1., [1.3]), ('a', 1., [1.1]), ('b', 2.9, [.2]), ('nu_rest', K.nu_hcn10, [200.]), ('scatter_lhcn', True, [False]), ('sig_lhcn', .3, [.5]), rng])
        add('hcn_breysse', plain(hcn.hcn_breysse), [('mass', arr(M))], [('f_duty', .1, [.7]), ('rand_f_duty', True, [False]), rng])
        add('delooze14', plain(fir.delooze14), [('sfr', arr(SF))], [('line', '[CII]', ['[OI]']), ('set', None, ['DGS']), ('scatter', True, [False]), ('fix_scatter', None, [.7]), rng])
        add('uzgil14', plain(fir.uzgil14), [('sfr', arr(SF))], [('d_mf', 1., [1.3]), ('line', '[CII]', ['[OIII]88um']), ('set', None, []), ('scatter', True, [False]), ('sig_scatter', .4, [.7]), rng])
        add('spinoglio12', plain(fir.spinoglio12), [('sfr', arr(SF))], [('d_mf', 1., [1.3]), ('line', '[CII]', ['[OIII]88um']), ('set', None, []), ('scatter', True, [False]), ('sig_scatter', .4, [.7]), rng])
        add('schaerer20', plain(fir.schaerer20), [('sfr', arr(SF))], [('set', None, ['ALPINE-uvirx', 'ALPINE-sed']), ('scatter', True, [False]), ('sig_scatter', .4, [.7]), rng])
        add('zhao13', plain(fir.zhao13), [('sfr', arr(SF))], [('d_mf', 1., [1.3]), ('scatter', True, [False]), ('sig_scatter', .4, [.7]), rng])
        add('padmanabhan19', plain(fir.padmanabhan19), [('mass', arr(M)), ('redshift', arr(Z))], [('m1', 2.39e-5, [1e-5]), ('b', .49, [.6]), ('n1', 4.19e11, [1e11]), ('a', 1.79, [1.5]), ('scatter', False, []), ('sig_scatter', None, []), rng])
        add('padmanabhan19 scatter', plain(fir.padmanabhan19), [('mass', arr(M)), ('redshift', arr(Z))], [('m1', 2.39e-5, []), ('b', .49, []), ('n1', 4.19e11, []), ('a', 1.79, []), ('scatter', New(lambda: True), []), ('sig_scatter', New(lambda: .3), []), rng])
        add('yang22', plain(ya.yang22), [('mass', arr(M)), ('redshift', arr(Z))], [('line', 'CII', ['CO1-0']), ('fduty', True, [False]), ('scatter', True, [False]), ('fix_scatter', None, [.7]), rng])
        add('log10normal', plain(L['log10normal'].log10normal), [('x', arr(SF)), ('dex', .3)], [('preserve_linear_mean', False, [True]), rng])
        for n in ('sfr', 'stellarmass'):
            opt = [('scatter', True, [False]), ('sigma_scatter', .3, [.6]), rng]
            add('behroozi ' + n, plain(getattr(be, n)), [('redshift', arr(Z)), ('mass', arr(M))], opt)
            add('behroozi13_base.' + n, lambda n=n: (getattr(be.behroozi13_base(), n), freeze), [('redshift', arr(Z)), ('mass', arr(M))], opt)

        # abundance matching
        am = L['am']
        cat = [1., 1.5, 2., 3., 5., 9.]
        try_at = np.array([-1., .05, .3, .5, .77, .95, 1.2, 1.4, 2.2, 2.9, 4., 8.9, 9., 9.5, 12., 30.])

        def relations(r):
            o = []
            for f in r:
                with np.errstate(all='ignore'):
                    o.append(freeze(np.asarray(f(try_at), dtype=float)))
            return tuple(o)
        ends = [('missing_pmass_low_p1', 0, [.2]), ('missing_pmass_high_p1', 0, [.1]), ('missing_pmass_low_p2', 0, [.15]), ('missing_pmass_high_p2', 0, [.25]),
                ('extrapolate_low_p1', 'nan', [-3.]), ('extrapolate_high_p1', 'nan', [44.]), ('extrapolate_low_p2', 'nan', [-2.]), ('extrapolate_high_p2', 'nan', [55.]), ('reverseorder', False, [True])]
        rv = L['beta'](2, 3, loc=-.5, scale=4.)
        add('am_dfcat', lambda: (am.am_dfcat, relations), [('prop1_cat', cat), ('prop2_rv', rv)], [('prop2_min', 0, [.3]), ('prop2_max', INF, [2.5])] + ends)
        inner = [(k, New(lambda a=a: a[0]), []) if k[0] == 'm' else (k, d, a) for k, d, a in ends]
        add('am_dfcat open', lambda: (am.am_dfcat, relations), [('prop1_cat', cat), ('prop2_rv', rv)], [('prop2_min', New(lambda: .3), []), ('prop2_max', New(lambda: 2.5), [])] + inner)
        add('am_dfdf open', lambda: (am.am_dfdf, relations), [('prop1_rv', L['beta'](3, 2, loc=-.4, scale=5.)), ('prop2_rv', rv)],
            [('prop1_min', New(lambda: .2), []), ('prop1_max', New(lambda: 3.3), []), ('prop2_min', New(lambda: .3), []), ('prop2_max', New(lambda: 2.5), [])] + inner)
        add('am_dfdf', lambda: (am.am_dfdf, relations), [('prop1_rv', L['beta'](3, 2, loc=-.4, scale=5.)), ('prop2_rv', rv)],
            [('prop1_min', 0, [.2]), ('prop1_max', INF, [3.3]), ('prop2_min', 0, [.3]), ('prop2_max', INF, [2.5])] + ends)
        b13 = lambda: be.behroozi13_base()
        add('behroozi13_base', lambda: (be.behroozi13_base, lambda o: freeze([o.sfr(np.array([.5, 4.]), np.array([1e12, 1e11]), scatter=False)])), [], [('warn', False, [True])])

        # calibrated models
        ir, b17 = L['sfr_ir'], L['sfr_bethermin17']
        at = (np.array([3e10, 1e11, 1e12, 4e12]), np.array([1.3, .5, 1.9, .25]))
        v_at = (np.array([110., 130., 180., 250.]), at[1])

        def calibrated(cls, where, before=None):
            def build():
                path = os.path.join(core.ROOT, 'simim_resources', 'galprops', where + '_TNG100-2')
                shutil.rmtree(path, ignore_errors=True)
                if os.path.isdir(os.path.dirname(path)):
                    os.mkdir(path)
                if before is not None:
                    cls('TNG100-2', **before)

                def seen(o):
                    out = [getattr(o, 'init_lir_function', None), getattr(o, 'init_stellarmass_function', None)] + [(f, freeze(np.load(os.path.join(path, f)))) for f in sorted(os.listdir(path)) if f.endswith('.npy')]
                    for a in (at, v_at) if True in out else ():
                        if where == 'g13':
                            out.append(freeze([o.sfr(*a), o.get_irlf_pars(1.7)]))
                        else:
                            out.append(freeze([o.stellarmass(*a)]))
                    if where == 'b17':
                        ms, z = np.geomspace(1e8, 1e17, 40), np.tile([.3, .8, 1.5, 3.1], 10)
                        out.append(freeze([o.b17_sfms(ms, z), o.b17_sffrac(ms, z), o.b17_sbfrac(ms, z), o.b17_sfr(ms, z, rng=np.random.default_rng(4))]))
                    return out
                return cls, seen
            return build
        lf = [('lf_alpha0', 1.2, [1.1]), ('lf_sigma0', .5, [.6]), ('lf_lstar0', 10 ** 9.95, [1e10]), ('lf_phistar0', 10 ** -2.25, [.004]), ('lir_to_sfr', 1e-10, [2e-10])]
        add('g13irlf_base', calibrated(ir.g13irlf_base, 'g13'), [('sim', 'TNG100-2')], [('comp', New(lambda: True), []), ('remake', False, []), ('haloprop', 'auto', ['mass']), ('halomassmin', 1e10, [5e10]), ('lirmin', 10 ** 8.5, [1e9])] + lf)
        add('g13irlf_base not computed', calibrated(ir.g13irlf_base, 'g13'), [('sim', 'TNG100-2')], [('comp', False, [True]), ('remake', False, [True])])
        add('g13irlf_base computed', calibrated(ir.g13irlf_base, 'g13', dict(comp=True, halomassmin=1e11, lf_alpha0=1.1)), [('sim', 'TNG100-2')], [('comp', False, [True]), ('remake', False, [True])])
        bm = [('sffrac_fq00', .1017, [.3]), ('sffrac_gamma', -1.039, [-.5]), ('sffrac_logmt0', 10.53, [10.1]), ('sffrac_alpha1', .2232, [.5]), ('sffrac_alpha2', .0913, [.2]), ('sffrac_sigsf0', .8488, [.5]), ('sffrac_beta1', .0418, [.1]), ('sffrac_beta2', -.0159, [.1]),
              ('sfms_m0', .5, [.7]), ('sfms_m1', .36, [.5]), ('sfms_a0', 1.5, [1.3]), ('sfms_a1', .3, [.5]), ('sfms_a2', 2.5, [2.]), ('sfms_correztlowz', True, [False]), ('sfms_sigma', .3, [.6]), ('sfms_msoffset', .87, [.7]), ('sfms_sboffset', 5.3, [3.]), ('sf_sflimit', 1e4, [10.])]
        add('bethermin17_base', calibrated(b17.bethermin17_base, 'b17'), [('sim', 'TNG100-2')], [('sm_comp', New(lambda: True), []), ('sm_remake', False, []), ('sm_haloprop', 'auto', ['mass']), ('sm_halomassmin', 1e10, [5e10])] + [(k, d, []) for k, d, a in bm])
        add('bethermin17_base parameters', calibrated(b17.bethermin17_base, 'b17'), [('sim', 'TNG100-2')], [('sm_comp', New(lambda: True), []), ('sm_remake', False, []), ('sm_haloprop', 'auto', []), ('sm_halomassmin', New(lambda: 1e10), [])] + [(k, New(lambda a=a: a[0]), []) if i % 2 else (k, d, []) for i, (k, d, a) in enumerate(bm)])

        add('bethermin17_base not computed', calibrated(b17.bethermin17_base, 'b17'), [('sim', 'TNG100-2')], [('sm_comp', False, [True]), ('sm_remake', False, [True])])
        add('bethermin17_base computed', calibrated(b17.bethermin17_base, 'b17', dict(sm_comp=True, sm_halomassmin=1e11)), [('sim', 'TNG100-2')], [('sm_comp', False, [True]), ('sm_remake', False, [True])])

        def model(where, name):
            def build():
                o = ir.g13irlf_base('TNG100-2', comp=True, lf_alpha0=1.3) if where == 'g13' else b17.bethermin17_base('TNG100-2', sm_comp=True, sfms_sigma=.4)
                return getattr(o, name), freeze
            return build
        add('g13 get_irlf_pars', model('g13', 'get_irlf_pars'), [('z', arr([.3, 1.5, 2.7]))], [('alpha0', None, [1.1]), ('sigma0', None, [.6]), ('lstar0', None, [1e10]), ('phistar0', None, [.004])])
        add('g13 sfr', model('g13', 'sfr'), [('haloprop', New(lambda: v_at[0].copy())), ('redshift', New(lambda: at[1].copy()))], [('lir_to_sfr', None, [2e-10])])
        add('b17 sfr', model('b17', 'b17_sfr'), [('m_stars', arr(np.geomspace(1e8, 1e17, 40))), ('z', arr([.3, .8, 1.5, 3.1] * 10))], [rng, ('return_fracs', False, [True])])

        # grids
        gd = L['gd']
        Grid = gd.Grid

        def g0(n=2, ft=()):
            g = Grid(n, (1., 2., 5.), (3., 4., 2.), (1., 1., .5), axunits=['arcmin', 'arcmin', 'GHz'], gridunits='Jy')
            g.init_grid()
            g.grid[...] = np.random.default_rng(3).random(g.grid.shape)
            if ft:
                g.fourier_transform(ax=list(ft))
            return g

        def other(n=2, ft=()):
            g = g0(n)
            g.grid[...] = g.grid[::-1] ** 2
            if ft:
                g.fourier_transform(ax=list(ft))
            return g

        def method(name, n=2, ft=()):
            def build():
                g = g0(n, ft)
                return getattr(g, name), lambda r: (freeze(r), freeze(g))
            return build
        two = lambda: New(lambda: np.array([[.2, 1.1, 4.3], [2.1, 3.9, 5.6], [.2, 1.1, 4.3]]))
        add('Grid', lambda: (Grid, freeze), [('n_properties', 2), ('center_point', [1., 2.]), ('side_length', [3., 4.]), ('pixel_size', [1., .5])], [('axunits', None, [['m', 's']]), ('gridunits', None, ['K'])])
        add('Grid.pad', method('pad'), [('ax', [0]), ('pad', 2)], [('val', 0, [7.])])
        add('Grid.crop', method('crop'), [('ax', 1)], [('min', None, [1.2]), ('max', None, [2.9])])
        add('Grid.scale_axis', method('scale_axis'), [('ax', 2), ('factor', 3.)], [('axunits', 'same', ['MHz', None]), ('scalecenter', True, [False])])
        add('Grid.copy_axes', method('copy_axes'), [], [('n_properties', 1, [3])])
        add('Grid.copy', method('copy'), [], [('properties', None, [[1]])])
        add('Grid.add_new_prop', method('add_new_prop'), [], [('value', None, [New(lambda: np.arange(48.).reshape(3, 4, 4, 1))])])
        for n in (1, 2):
            add('Grid.add_from_cat {}'.format(n), method('add_from_cat', n), [('positions', two())], [('values', None, [New(lambda: np.array([1., 2., 3.]))]), ('new_props', False, [True]), ('properties', None, [0])])
        add('Grid.add_from_pos_plus_array', method('add_from_pos_plus_array'), [('positions', New(lambda: np.array([[.2, 1.1], [2.1, 3.9]]))), ('values', New(lambda: np.arange(8.).reshape(2, 4)))],
            [('ax', -1, [2]), ('new_prop', False, [True]), ('properties', None, [1])])
        add('Grid.add_from_pos_plus_array first', method('add_from_pos_plus_array'), [('positions', New(lambda: np.array([[1.1, 4.3], [3.9, 5.6]]))), ('values', New(lambda: np.arange(6.).reshape(2, 3)))],
            [('ax', New(lambda: 0), []), ('new_prop', False, [True]), ('properties', None, [1])])

        def spec(x, p=None):
            if p is None or not p.shape[1]:
                p = np.array([[2.], [3.]])[:2 if p is None else len(p)]
            return p[:, :1] * np.asarray(x).reshape(1, -1) ** 2 + 1
        add('Grid.add_from_spec_func', method('add_from_spec_func'), [('positions', New(lambda: np.array([[.2, 1.1], [2.1, 3.9]]))), ('spec_function', spec)],
            [('spec_function_arguments', None, [New(lambda: np.array([[3.], [5.]]))]), ('spec_ax', -1, [2]), ('is_cumulative', False, [True]), ('eval_as_loop', False, [True]), ('careful_with_memory', True, [False]), ('new_prop', False, [True]), ('properties', None, [1])])
        add('Grid.sum_properties', method('sum_properties', 3), [], [('properties', None, [[0, 2]]), ('in_place', True, [False])])
        add('Grid.sample', method('sample'), [('positions', two())], [('properties', None, [1])])
        psf = New(lambda: gd.PSF([1.5, 2.], (1., 1.)))
        add('Grid.convolve', method('convolve'), [('source', psf)], [('ax', New(lambda: [0, 1]), []), ('in_place', True, [False]), ('pad', None, [1])])
        add('Grid.convolve all', method('convolve'), [('source', New(lambda: gd.PSF([1.5, 2., 1.], (1., 1., .5))))], [('ax', None, [[0, 1, 2]]), ('in_place', True, [False]), ('pad', None, [1])])
        add('Grid.down_sample', method('down_sample'), [('ax', 1), ('factor', 2)], [('mode', 'average', ['sum'])])
        add('Grid.collapse_dimension', method('collapse_dimension'), [], [('in_place', True, [False]), ('weights', None, [New(lambda: np.array([1., 2., 3., 5.]))]), ('mode', 'average', ['sum'])], lead=[('ax', 1)])
        add('Grid.fourier_transform', method('fourier_transform'), [], [('ax', None, [[0]]), ('normalize', True, [False])])
        for ft in ((), (0, 1)):
            add('Grid.power_spectrum {}'.format(ft), method('power_spectrum', 2, ft), [], [('cross_grid', None, [New(lambda ft=ft: other(2, ft))]), ('ax', None, [[0, 1]]), ('in_place', False, [True]), ('normalize', True, [False])])
        add('Grid.spherical_average', method('spherical_average'), [], [('ax', None, [[0, 1]]), ('center', None, [[.4, 1.2], [.4, 1.2, 5.1]]), ('shells', None, [[0., 1.5, 3.]]), ('binmode', 'linear', []), ('weights', None, [New(lambda: np.arange(12.).reshape(3, 4) + 1)]),
                                                                      ('return_std', False, [True]), ('biased_std', True, [False]), ('return_n', False, [True])])
        add('Grid.spherical_average log', method('spherical_average'), [], [('ax', None, []), ('center', None, []), ('shells', New(lambda: 4), []), ('binmode', 'linear', ['log']), ('weights', None, []), ('return_std', False, [True]), ('biased_std', True, [False]), ('return_n', False, [True])])

        def show(name, n=2, ft=()):
            def build():
                g = g0(n, ft)
                return getattr(g, name), lambda r: (self.figure(), freeze(g))
            return build
        add('Grid.visualize', show('visualize'), [], [('ax', New2([0, 1]), [[2, 0]]), ('slice_indices', 'sum', [[1]]), ('property', 0, [1]), ('figsize', (5, 5), [(4, 3)]), ('axkws', {}, [{'xlabel': 'x'}]), ('plotkws', {}, [{'vmin': 0, 'vmax': 9}])])
        add('Grid.animate', show('animate'), [], [('save', None, []), ('prop_ind', 0, [1]), ('slide_dim', 2, []), ('face_dims', New2([0, 1]), []), ('i0', 0, [2]), ('still', New(lambda: True), []), ('logscale', False, [True]), ('minrescale', 1, [.5]), ('maxrescale', 1, [2.])])
        for s, fd in ((0, [1, 2]), (2, [1, 0])):
            add('Grid.animate {}'.format(s), show('animate'), [], [('save', None, []), ('prop_ind', 0, [1]), ('slide_dim', New(lambda s=s: s), []), ('face_dims', New(lambda fd=fd: list(fd)), []), ('i0', 0, [2]), ('still', New(lambda: True), []), ('logscale', False, []), ('minrescale', 1, []), ('maxrescale', 1, [])])

        def saved(path):
            def build():
                g = g0()
                d = os.path.join(core.ROOT, 'grids')
                shutil.rmtree(d, ignore_errors=True)
                os.mkdir(d)
                if path == 'old':
                    Grid(1, (1., 2.), (3., 4.), (1., 1.)).copy_axes()
                    o = Grid(1, (1., 2.), (3., 4.), (1., 1.))
                    o.init_grid()
                    o.save(os.path.join(d, 'g'))

                def seen(r):
                    p = os.path.join(d, 'g.npz')
                    return freeze(gd.LoadGrid(p)), sorted((f, os.path.getsize(os.path.join(d, f))) for f in os.listdir(d))
                return g.save, seen
            return build
        for w in ('new', 'old'):
            add('Grid.save ' + w, saved(w), [('path', New(lambda: os.path.join(core.ROOT, 'grids', 'g')))], [('compress', False, [True]), ('overwrite', False, [True])])
        gopt = [('values', None, [New(lambda: np.array([1., 2., 3.]))]), ('center_point', None, [[1., 2., 5.]]), ('side_length', None, [[3., 4., 2.]]), ('pixel_size', 1, [.5])]
        add('Gridder', lambda: (gd.Gridder, freeze), [('positions', two())], gopt + [('axunits', None, [['m', 's', 'K']]), ('gridunits', None, ['K']), ('setndims', None, [3])])
        add('gridder_function', plain(gd.gridder_function), [('positions', two())], gopt + [('setndims', None, [3])])
        add('PSF', lambda: (gd.PSF, freeze), [('fwhm', [1.5, 2.]), ('pixel_size', [.5, 1.])], [('side_length', None, [[5., 7.]]), ('axunits', None, [['m', 's']]), ('norm', 'area', ['peak'])])
        add('SpectralPSF', lambda: (gd.SpectralPSF, freeze), [('spec_axis', New(lambda: np.array([90., 100., 110.]))), ('spec0', 100.), ('fwhm0', [1.5, 2.]), ('pixel_size', [.5, 1.])],
            [('side_length', None, [[5., 7.]]), ('axunits', None, [['m', 's', 'GHz']]), ('norm', 'area', ['peak']), ('exp', 1, [-1.])])
        ax2 = [('axes', New(lambda: [np.array([0., 1., 2.]), np.array([5., 5.5, 6., 6.5])]))]
        lead = [(None, New(lambda: np.array([0., 1., 2.]))), (None, New(lambda: np.array([5., 5.5, 6., 6.5])))]
        add('GridFromAxes', lambda: (gd.GridFromAxes, freeze), [], [('n_properties', 1, [2]), ('axunits', None, [['m', 's']]), ('gridunits', None, ['K'])], lead=lead, byname=True)

        def fun(x, y, k=2.):
            return x[:, None] * k + y[None, :]
        add('GridFromAxesAndFunction', lambda: (gd.GridFromAxesAndFunction, freeze), [], [('function_kwargs', {}, [{'k': 5.}]), ('n_properties', 1, []), ('axunits', None, [['m', 's']]), ('gridunits', None, ['K'])], lead=[(None, fun)] + lead, byname=True)

        # handlers
        Prop, MultiProp = L['Prop'], L['MultiProp']

        def handler(kind, dh, sel=True):
            if kind == 'snap':
                h = self.SimHandler('TNG300-1', in_h_units=dh).get_snap(5)
            else:
                h = self.LCHandler('TNG300-1', 'given', 0, in_h_units=dh)
            if sel:
                h.set_property_range('mass', 8e11, 6e12, in_h_units=True)
            return h

        def hmethod(kind, name, dh):
            def build():
                self.restore()
                h = handler(kind, dh)
                return getattr(h, name), lambda r: (freeze(r), self.look(h))
            return build
        p1 = lambda: New(lambda: Prop('lum', lambda mass, sfr, f=2.: mass * sfr * f + (np.arange(len(mass)) % 5) * 1e11, ['mass', 'sfr'], units='Lsun', h_dependence=-1, give_args_in_h_units=True))
        p2 = New(lambda: MultiProp(['u', 'w'], lambda mass, f=2.: [mass * f, mass * f * f], ['mass'], units=['K', 'm'], h_dependence=[0, -2]))
        stat = lambda m, s, f=2.: float(np.sum(m / 1e12) * f + np.max(s))
        hu = ('in_h_units', None, [True, False])
        for kind in ('snap', 'cone'):
            for dh in (False, True):
                T = '{} {} '.format(kind, 'h' if dh else '')
                add(T + 'extract_keys', hmethod(kind, 'extract_keys', dh), [], [('set', 'any', ['saved', 'loaded'])])
                add(T + 'return_property', hmethod(kind, 'return_property', dh), [('property_name', 'mass')], [('use_all_inds', False, [True]), hu])
                mk = [('kw_remap', {}, [{'sfr': 'mass'}]), ('other_kws', {}, [{'f': 3.}]), ('overwrite', False, [True]), ('use_all_inds', False, [True]), ('write_to_disk', False, [True]), ('overwrite_to_disk', False, [True]), ('dtype_to_disk', None, ['f4']), ('unload_to_disk', False, [True])]
                add(T + 'make_property', hmethod(kind, 'make_property', dh), [('property', p1())], [('rename', None, ['lum2'])] + mk, fixed=N())
                add(T + 'make_property all', hmethod(kind, 'make_property', dh), [('property', p2)], [('rename', None, [['u2', 'w2']])] + [(k, d, a if k != 'kw_remap' else [{'mass': 'sfr'}]) if k not in ('use_all_inds', 'write_to_disk') else (k, New(lambda: True), []) for k, d, a in mk])
                add(T + 'make_property sfr', hmethod(kind, 'make_property', dh), [('property', New(lambda: Prop('sfr', lambda mass: mass * 2e-12, ['mass'])))], [('rename', None, ['mass'])] + [(k, d, a if k not in ('kw_remap', 'other_kws') else []) if k not in ('use_all_inds',) else (k, New(lambda: True), []) for k, d, a in mk])

                def wrote(kind=kind, dh=dh):
                    self.restore()
                    h = handler(kind, dh)
                    h.make_property(Prop('lum', lambda mass: mass * 3, ['mass'], units='Lsun', h_dependence=1), use_all_inds=True)
                    h.make_property(Prop('sfr', lambda mass: mass * 3, ['mass'], units='Lsun', h_dependence=1), use_all_inds=True, overwrite=True)
                    return h.write_property, lambda r: (freeze(r), self.look(h))
                for n in ('lum', 'sfr'):
                    add(T + 'write_property ' + n, wrote, [], [('overwrite', False, [True]), ('dtype', None, ['f4'])], lead=[(None, n)], byname=True)
                add(T + 'set_property_range', hmethod(kind, 'set_property_range', dh), [], [('property_name', None, ['sfr', 'mass']), ('pmin', -INF, [9.]), ('pmax', INF, [18., 3e12]), ('reset', True, [False]), hu])
                add(T + 'set_property_range mass', hmethod(kind, 'set_property_range', dh), [('property_name', 'mass')], [('pmin', -INF, [9e11]), ('pmax', INF, [3e12]), ('reset', True, [False]), hu])
                add(T + 'eval_stat', hmethod(kind, 'eval_stat', dh), [('stat_function', lambda mass, sfr, f=2.: stat(mass, sfr, f)), ('kwargs', ['mass', 'sfr'])], [('kw_remap', {}, [{'sfr': 'mass'}]), ('other_kws', {}, [{'f': 3.}]), ('use_all_inds', False, [True]), ('give_args_in_h_units', None, [True, False])])

                def plotted(name, kind=kind, dh=dh):
                    def build():
                        h = handler(kind, dh)
                        return getattr(h, name), lambda r: self.figure()
                    return build
                pk = [('axkws', {}, [{'xlabel': 'a'}]), ('plotkws', {}, [{'color': 'r'}]), hu]
                if kind == 'snap':
                    add(T + 'plot', plotted('plot'), [], [('use_all_inds', False, [True]), ('save', None, [])] + pk, lead=[(None, 'mass'), (None, 'sfr')], byname=True)
                    add(T + 'hist', plotted('hist'), [], [('use_all_inds', False, [True]), ('logtransform', False, [True]), ('save', None, [])] + pk, lead=[(None, 'mass')], byname=True)
        for dh in (False, True):
            T = 'h ' if dh else ''
            ng = [('use_all_inds', False, [True]), ('res', None, [20., [20., 15., 30.]])]
            add(T + 'SnapHandler.grid', hmethod('snap', 'grid', dh), [], [hu] + ng + [('xlim', None, [(10., 50.)]), ('ylim', None, [(10., 50.)]), ('zlim', None, [(10., 50.)]), ('norm', None, ['cell_volume', 3.])], lead=[(None, 'mass'), (None, 'sfr')], byname=True)
            add(T + 'LCHandler.grid', hmethod('cone', 'grid', dh), [], [('restfreq', None, [115.]), hu, ('use_all_inds', False, [True]), ('res', New(lambda: [.01, .01, .01]), []), ('ralim', None, [(-.01, .02)]), ('declim', None, [(-.01, .02)]), ('zlim', None, [(.02, .06)]), ('norm', None, [3.])], lead=[(None, 'mass')], byname=True)
            add(T + 'LCHandler.volume', hmethod('cone', 'volume', dh), [], [('redshift_min', None, [.01]), ('redshift_max', None, [.05]), ('shape', None, ['circle']), ('open_angle', None, [.01]), ('aspect_ratio', None, [.5]), hu])
            st = lambda sfr, f=1., zmin=0., zmax=0., volume=0.: np.sum(sfr) * f + zmin * 3 + zmax * 7 + volume
            add(T + 'LCHandler.eval_stat_evo', hmethod('cone', 'eval_stat_evo', dh), [('redshift_bins', [.01, .03, .07]), ('stat_function', st), ('kwargs', ['sfr'])],
                [('kw_remap', {}, [{'sfr': 'mass'}]), ('other_kws', {}, [{'f': 3.}]), ('zmin_kw', False, [True]), ('zmax_kw', False, [True]), ('volume_kw', False, [True]), ('give_args_in_h_units', None, [True, False])])

            def sim(name, dh=dh):
                def build():
                    self.restore()
                    s = self.SimHandler('TNG300-1', init_snaps=True, in_h_units=dh)
                    s.set_property_range('mass', 8e11, 6e12, in_h_units=True)
                    return getattr(s, name), lambda r: (freeze(r), [self.look(s.get_snap(i)) for i, _ in SNAPS])
                return build
            add(T + 'SimHandler.number_volumes', sim('number_volumes'), [('volume', 1e6)], [hu])
            add(T + 'SimHandler.get_mass_index', sim('get_mass_index'), [('mass', 1e12), ('snap', 5)], [hu])
            add(T + 'SimHandler.set_property_range', sim('set_property_range'), [], [('property_name', None, ['sfr']), ('pmin', -INF, [9.]), ('pmax', INF, [18.]), ('reset', True, [False]), hu])
            add(T + 'SimHandler.set_property_range mass', sim('set_property_range'), [('property_name', 'mass')], [('pmin', -INF, [9e11]), ('pmax', INF, [3e12]), ('reset', True, [False]), hu])
            sm = [('overwrite', False, [True]), ('use_all_inds', False, [True]), ('write', False, [True]), ('writedtype', None, ['f4'])]
            add(T + 'SimHandler.make_property', sim('make_property'), [('property', p1())], [('rename', None, ['lum2']), ('kw_remap', {}, [{'sfr': 'mass'}]), ('other_kws', {}, [])] + sm)
            add(T + 'SimHandler.make_property all', sim('make_property'), [('property', p2)], [('rename', None, []), ('kw_remap', {}, [{'mass': 'sfr'}]), ('other_kws', {}, [{'f': 3.}])] + [(k, d, a) if k in ('overwrite', 'writedtype') else (k, New(lambda: True), []) for k, d, a in sm])
            add(T + 'SimHandler.make_property sfr', sim('make_property'), [('property', New(lambda: Prop('sfr', lambda mass: mass * 2e-12, ['mass'])))], [('rename', None, []), ('kw_remap', {}, []), ('other_kws', {}, [])] + [(k, d, a) if k not in ('use_all_inds',) else (k, New(lambda: True), []) for k, d, a in sm])
            add(T + 'SimHandler.snap_stat', sim('snap_stat'), [('stat_function', lambda mass, sfr, f=2.: stat(mass, sfr, f)), ('kwargs', ['mass', 'sfr'])],
                [('kw_remap', {}, [{'sfr': 'mass'}]), ('other_kws', {}, [{'f': 3.}]), ('give_args_in_h_units', None, [True, False]), ('use_all_inds', False, [True]), ('snaps', None, [[2, 6]])])

            def it(name, dh=dh):
                def build():
                    i = L['LCIterator']('TNG300-1', 'given', in_h_units=dh)
                    return getattr(i, name), freeze
                return build
            add(T + 'LCIterator.volume', it('volume'), [], [('redshift_min', None, [.01]), ('redshift_max', None, [.05]), ('shape', None, ['circle']), ('open_angle', None, [.01]), ('aspect_ratio', None, [.5]), hu, ('number', None, [1])])
        view = lambda h: freeze([h.return_property('mass'), h.return_property('sfr', use_all_inds=True), h.default_in_h_units])
        add('SimHandler', lambda: (self.SimHandler, lambda s: (s.init_snaps, len(getattr(s, 'snap_handlers', ())), view(s.get_snap(5)))), [('sim', 'TNG300-1')], [('init_snaps', False, [True]), ('in_h_units', False, [True])])

        def init():
            s = self.SimHandler('TNG300-1', init_snaps=True)
            s.get_snap(5).make_property(Prop('lum', lambda mass: mass * 3, ['mass']), use_all_inds=True)
            return s.initialize_all_snaps, lambda r: [sorted(s.get_snap(i).extract_keys()) for i, _ in SNAPS]
        add('SimHandler.initialize_all_snaps', init, [], [('remake', False, [True])])
        add('LCHandler', lambda: (self.LCHandler, view), [('sim', 'TNG300-1'), ('name', 'given'), ('number', 1)], [('in_h_units', False, [True])])
        add('LCIterator', lambda: (L['LCIterator'], lambda i: ([int(n) for n in i.lc_numbers], [view(i.lc_handlers[k]) for k in sorted(i.lc_handlers, key=str)])), [('sim', 'TNG300-1'), ('name', 'given')], [('numbers', None, [[2, 0]]), ('in_h_units', False, [True]), ('require_consistent', True, [False])])

        # property definitions
        def defined(cls):
            def look(p):
                h = handler('snap', False)
                h.make_property(p, use_all_inds=True)
                return freeze([[n, h.return_property(n), h.properties_units[n], h.properties_h_dependence[n]] for n in sorted(set(h.extract_keys('generated')))])
            return lambda: (cls, look)
        hk = [('give_args_in_h_units', False, [True]), ('function_return_in_h_units', False, [True])]
        add('Prop', defined(Prop), [('prop_name', 'lum'), ('prop_function', lambda mass: mass ** 1.5), ('kwargs', ['mass'])], hk + [('units', 'None', ['K']), ('h_dependence', 0, [-2])])
        add('MultiProp', defined(MultiProp), [('prop_names', ['lum']), ('prop_function', lambda mass: mass ** 1.5), ('kwargs', ['mass'])], hk + [('units', ['None'], [['K']]), ('h_dependence', [0], [[-2]]), ('wrap', True, [])])
        add('MultiProp list', defined(MultiProp), [('prop_names', ['lum']), ('prop_function', lambda mass: [mass ** 1.5]), ('kwargs', ['mass'])], hk + [('units', ['None'], [['K']]), ('h_dependence', [0], [[-2]]), ('wrap', New(lambda: False), [])])

        def evaluated(which, name):
            def build():
                h = handler('snap', False)
                p = Prop('lum', lambda mass, f=2.: mass * f, ['mass'], h_dependence=-1) if which == 1 else MultiProp(['u', 'w'], lambda mass, f=2.: [mass * f, mass], ['mass'], units=['K', 'm'], h_dependence=[0, -2])
                m = getattr(p, name)
                return (lambda target, *a, **k: m(h, *a, **k)), freeze
            return build
        ek = [('use_all_inds', False, [True]), ('kw_remap', {}, [{'mass': 'sfr'}]), ('kw_arguments', {}, [{'f': 5.}])]
        add('Prop.evaluate', evaluated(1, 'evaluate'), [], ek[:2], lead=[(None, 0)])
        add('MultiProp.evaluate', evaluated(2, 'evaluate'), [], ek, lead=[(None, 0)])
        add('MultiProp.evaluate_all', evaluated(2, 'evaluate_all'), [], ek, lead=[(None, 0)])

        # light cone makers
        def made(cls, sim):
            def build():
                self.unmake()

                def seen(m):
                    m.build_lightcones(2, rng=self.script())
                    return self.cones(m)
                return cls, seen
            return build
        many = [('minimum_mass', 0, [9e11])]
        add('LCMaker', made(L['LCMaker'], 'TNG300-1'), [('sim', 'TNG300-1'), ('name', 'made'), ('openangle', 4.)], [('aspect', 1, [.6]), ('redshift_min', 0, [.03]), ('redshift_max', 'max', [.07])] + many + [('mode', 'box', ['circle']), ('overwrite', 'check', [True])])
        add('SphereMaker', made(L['SphereMaker'], 'TNG100-1'), [('sim', 'TNG100-1'), ('name', 'made')], [('redshift_min', 0, [.002]), ('redshift_max', New(lambda: .008), [])] + many + [('mode', 'sphere', ['quarter']), ('overwrite', 'check', [True])])

        def existing(cls, sim, *a):
            def build():
                self.unmake()
                cls(sim, 'made', *a, redshift_min=.001, redshift_max=.008 if sim == 'TNG100-1' else .07, overwrite=True)
                asked = []
                builtins.input = lambda *a: asked.append(1) or 'y'
                return cls, lambda m: (asked, freeze(m.redshift_max))
            return build
        ow = ('overwrite', 'check', [True, False])
        add('LCMaker existing', existing(L['LCMaker'], 'TNG300-1', 4.), [('sim', 'TNG300-1'), ('name', 'made'), ('openangle', 4.)], [('aspect', 1, []), ('redshift_min', 0, []), ('redshift_max', New(lambda: .07), []), ('minimum_mass', 0, []), ('mode', 'box', []), ow])
        add('SphereMaker existing', existing(L['SphereMaker'], 'TNG100-1'), [('sim', 'TNG100-1'), ('name', 'made')], [('redshift_min', 0, []), ('redshift_max', New(lambda: .008), []), ('minimum_mass', 0, []), ('mode', 'sphere', []), ow])

        def builder(cls, sim, *a):
            def build():
                self.unmake()
                m = cls(sim, 'made', *a, redshift_min=.001, redshift_max=.008 if sim == 'TNG100-1' else .07, overwrite=True)
                return m.build_lightcones, lambda r: self.cones(m)
            return build
        for cls, sim, a in ((L['LCMaker'], 'TNG300-1', (4.,)), (L['SphereMaker'], 'TNG100-1', ())):
            add(cls.__name__ + '.build_lightcones', builder(cls, sim, *a), [], [('n', 1, [2]), ('rng', New(self.script), [])])

        def finished():
            self.unmake()
            m = L['LCMaker']('TNG300-1', 'made', 4., redshift_min=.001, redshift_max=.07, overwrite=True)
            m.build_lightcones(2, rng=self.script())
            m.add_properties('sfr')
            return m.get_LCIterator, lambda i: ([int(n) for n in i.lc_numbers], [view(i.lc_handlers[k]) for k in sorted(i.lc_handlers, key=str)])
        add('LCMaker.get_LCIterator', finished, [], [('in_h_units', False, [True])])

        # responses and noise of instruments
        nf, sp, sc = L['nf'], L['sp'], L['sc']
        dx, dy, fr = arr([-.5, .1, .9]), arr([-.2, .4]), arr([90., 100., 101.5])
        add('gauss_psf', plain(sp.gauss_psf), [('dx', dx), ('dy', dy), ('freq', fr)], [('fwhmx', 1, [2.]), ('fwhmy', 1, [.5]), ('cx', 0, [.2]), ('cy', 0, [-.3])])
        add('gauss_psf_freq_dependent', plain(sp.gauss_psf_freq_dependent), [('dx', dx), ('dy', dy), ('freq', arr([9e10, 1e11, 1.3e11]))], [('freq0', 1e11, [9e10]), ('fwhmx', 1, [2.]), ('fwhmy', 1, [.5]), ('cx', 0, [.2]), ('cy', 0, [-.3]), ('freq_exp', -1, [1.])])
        add('gauss_response', plain(sc.gauss_response), [('freq', arr([98., 99.7, 100.2, 101.]))], [('A', 1, [2.]), ('freq0', 100, [99.]), ('fwhm', 1, [3.])])
        add('boxcar_response', plain(sc.boxcar_response), [('freq', arr([98., 99.7, 100.2, 101.]))], [('A', 1, [2.]), ('freq0', 100, [99.]), ('width', 1, [3.])])
        add('white_noise', plain(nf.white_noise), [('Nsamples', 5), ('dt', 2.)], [('rms', 1, [3.]), ('bias', 0, [2.]), rng])
        add('zero_noise', plain(nf.zero_noise), [('Nsamples', 5), ('dt', 2.)], [('rng', None, [])])

        # instruments
        Instrument = L['Instrument']
        resp = [('spatial_response', None, ['gauss']), ('spatial_kwargs', None, [{}, {'fwhmx': 3.}]), ('spectral_response', None, ['boxcar']), ('spectral_kwargs', None, [{}, {'freq0': 5.}]), ('noise_function', None, ['white']), ('noise_kwargs', None, [{}, {'rms': 3.}])]

        def inst(n=2):
            i = Instrument(spatial_unit='arcmin', spectral_unit='GHz', flux_unit='Jy', best_spatial_res=1., best_spectral_res=.5, default_spatial_response='gauss', default_spatial_kwargs={'fwhmx': 2., 'fwhmy': 1.},
                           default_spectral_response='gauss', default_spectral_kwargs={'freq0': 5., 'fwhm': 1.}, default_noise_function='none', default_noise_kwargs={})
            for k in range(n):
                i.add_detector('d{}'.format(k), nominal_frequency=4.5 + k)
            return i

        def detectors(i):
            d = []
            for n in i.detectors:
                x = i.detectors[n]
                d.append([n, freeze(x.spatial_response), freeze(x.spatial_kwargs), freeze(x.spectral_response), freeze(x.spectral_kwargs), freeze(x.noise_function), freeze(x.noise_kwargs), freeze(x.pointing_offsets), freeze(x.reffreq)])
            return d

        def new_inst():
            def seen(i):
                o = [freeze(getattr(i, a)) for a in ('spatial_unit', 'spectral_unit', 'flux_unit', 'best_spatial_res', 'best_spectral_res', 'pointing_offset_frame')]
                try:
                    i.add_detector('x', nominal_frequency=5.)
                    o += detectors(i)
                except ValueError as e:
                    o.append('ValueError')
                return o
            return Instrument, seen
        add('Instrument', new_inst, [], [('spatial_unit', None, ['deg']), ('spectral_unit', None, ['GHz']), ('flux_unit', None, ['mJy']), ('best_spatial_res', None, [.5]), ('best_spectral_res', None, [.2])] + [('default_' + k, d, a) for k, d, a in resp] + [('pointing_offset_frame', None, [])])
        add('Instrument complete', new_inst, [], [('spatial_unit', None, []), ('spectral_unit', None, []), ('flux_unit', None, []), ('best_spatial_res', None, []), ('best_spectral_res', None, [])] + [('default_' + k, New(lambda a=a: copy.deepcopy(a[-1])), []) for k, d, a in resp] + [('pointing_offset_frame', None, [])])

        Detector = L['Detector']

        def alone():
            def seen(d):
                return [freeze(getattr(d, a)) for a in ('spatial_unit', 'spectral_unit', 'flux_unit', 'best_spatial_res', 'best_spectral_res', 'pointing_offset_frame')] + detectors(d)
            return Detector, seen
        add('Detector', alone, [], [('spatial_unit', None, ['deg']), ('spectral_unit', None, ['GHz']), ('flux_unit', None, ['mJy'])] + [(k, New(lambda a=a: copy.deepcopy(a[-1])), []) for k, d, a in resp] +
            [('pointing_offsets', None, [(.5, .1)]), ('pointing_offset_frame', None, []), ('nominal_frequency', None, [5.]), ('spatial_res', None, [.5]), ('spectral_res', None, [.2])])
        for k, d, a in resp[::2]:
            kw = [(n, New(lambda v=v: copy.deepcopy(v[-1])), []) if not n.startswith(k[:7]) else (n, dd, v[:1] if n == k else []) for n, dd, v in resp]
            add('Detector without ' + k, alone, [], [('spatial_unit', None, []), ('spectral_unit', None, []), ('flux_unit', None, [])] + kw + [('pointing_offsets', None, []), ('pointing_offset_frame', None, []), ('nominal_frequency', New(lambda: 5.), []), ('spatial_res', None, []), ('spectral_res', None, [])])
        add('Detector minimal', alone, [], [('spatial_unit', None, []), ('spectral_unit', None, []), ('flux_unit', None, [])] + [(k, d, a[:1]) for k, d, a in resp] + [('pointing_offsets', None, []), ('pointing_offset_frame', None, []), ('nominal_frequency', None, [5.]), ('spatial_res', None, []), ('spectral_res', None, [])])

        def adding():
            i = inst(1)
            return i.add_detector, lambda r: detectors(i)
        add('Instrument.add_detector', adding, [], [('name', None, ['new']), ('nominal_frequency', None, [5.])] + resp + [('pointing_offsets', None, [(.5, .1)])])
        add('Instrument.add_detector given', adding, [], [('name', None, ['new']), ('nominal_frequency', New(lambda: 5.), [])] + resp + [('pointing_offsets', None, [(.5, .1)])])
        for m, kw in (('set_spatial_respones', 'spatial'), ('set_spectral_respones', 'spectral'), ('set_noise_functions', 'noise')):
            def setting(m=m):
                i = inst()

                def seen(r):
                    i.add_detector('x', nominal_frequency=5.)
                    return detectors(i)
                return getattr(i, m), seen
            add('Instrument.' + m, setting, [], [(kw + '_kwargs', None, [{}, {'fwhmx': 5.}])], lead=[(None, 'd1')], fixed={kw + ('_function' if kw == 'noise' else '_response'): {'spatial': 'gauss', 'spectral': 'boxcar', 'noise': 'none'}[kw]}, byname=True)

        def field(prep, name, seen):
            def build():
                i = inst()
                g = self.given = g0(2)
                prep(i, g)
                m = getattr(i, name)
                return (lambda *a, **k: m(*a, **k)), lambda r: seen(i, r, g)
            return build
        def doubled(i, r, g):
            g.grid *= 2
            return sorted(i.fields), self.mapped(i), freeze(g)
        add('Instrument.add_field', field(lambda i, g: None, 'add_field', doubled), [('grid', New(lambda: self.given))], [('name', None, ['f']), ('field_property_idx', None, [1]), ('in_place', True, [False])])
        add('Instrument.map_fields', field(lambda i, g: i.add_field(g, 'f'), 'map_fields', lambda i, r, g: self.maps(i)), [], [('spatial_response_norm', 'peak', ['area']), ('kernel_size', None, [3]), ('beam', None, []), ('pad', None, [1])], byname=True)

        def ready(i, g):
            i.set_noise_functions('d0', 'd1', noise_function='white', noise_kwargs={'rms': 2., 'rng': np.random.default_rng(5)})
            i.add_field(g, 'f')
            i.map_fields()
        add('Instrument.sample_fields', field(ready, 'sample_fields', lambda i, r, g: freeze(r)), [], [('sample_signal', True, [False]), ('sample_noise', True, [False]), ('dt', New(lambda: 2.), [])], lead=[(None, arr([[.1, 1.2], [2.2, 3.3]]))], byname=True)
        pics = field(lambda i, g: None, 'plot_detector_response', lambda i, r, g: self.figure())
        add('Instrument.plot_detector_response', pics, [], [('xmin', None, [-1.]), ('xmax', None, [1.]), ('ymin', None, [-1.]), ('ymax', None, [1.]), ('fmin', None, [3.]), ('fmax', None, [8.]), ('fspatial', None, [6.]), ('figsize', (10, 5), [(5, 4)])], lead=[(None, 'd0')], byname=True)
        add('Instrument.plot_spectral_response', field(lambda i, g: None, 'plot_spectral_response', lambda i, r, g: self.figure()), [], [('fmin', None, [3.]), ('fmax', None, [8.]), ('figsize', (5, 5), [(5, 4)])])

        # formatting
        Cat = rs.make_class(L['SimCatalogs'], 2)

        def formatting(start):
            def build():
                p = os.path.join(core.ROOT, 'raw')
                shutil.rmtree(p, ignore_errors=True)
                os.mkdir(p)
                rs.save_meta(p, 2)
                for s in range(2):
                    rs.write_raw(p, s, RAW[s])
                c = Cat(p)
                if start:
                    c.format(basic=start == 2)
                    with self.h5py.File(os.path.join(p, 'data.hdf5'), 'a') as f:      # recognise data that was kept
                        for s in range(2):
                            f['Snapshot {}'.format(s)]['mass'][0] = 7e15

                def seen(r):
                    attrs, d = rs.read_file(self.h5py, p)
                    return freeze(d), sorted(os.listdir(os.path.join(p, 'raw')))
                return c.format, seen
            return build
        for start in (0, 1, 2):
            add('SimCatalogs.format {}'.format(start), formatting(start), [], [('remake', False, [True]), ('overwrite', False, [True]), ('basic', False, [True]), ('realtime_clean_raw', False, [True]), ('realtime_clean_raw_check', New(lambda: False), [])])
        return out

    def mapped(self, i):
        i.map_fields()
        return self.maps(i)

    def maps(self, i):
        return [[str(k), freeze(i.maps[k])] for k in i.maps]

    # ---------------------------------------------------------------- state
    def restore(self):
        for root, ds, fs in os.walk(self.pristine):
            for f in fs:
                p = os.path.join(root, f)
                shutil.copyfile(p, os.path.join(self.base, os.path.relpath(p, self.pristine)))
        if not hasattr(self, 'cones0'):
            self.cones0 = {f: open(os.path.join(self.lcpath, f), 'rb').read() for f in os.listdir(self.lcpath)}
        for f, b in self.cones0.items():
            open(os.path.join(self.lcpath, f), 'wb').write(b)

    def unmake(self):
        for sim in ('TNG300-1', 'TNG100-1'):
            shutil.rmtree(os.path.join(os.path.dirname(os.path.dirname(self.lcpath)), sim, 'made'), ignore_errors=True)

    def cones(self, m):
        out = []
        for f in sorted(os.listdir(m.lc_path)):
            if f.endswith('.hdf5'):
                with self.h5py.File(os.path.join(m.lc_path, f), 'r') as h:
                    basic, full, idx, zidx = lm.table(h)
                    out.append([f, freeze(basic), freeze(full), freeze(idx), sorted((k, freeze(v)) for k, v in h.attrs.items() if k not in ('created', 'finished'))])
        return out

    def look(self, h):
        """What a handler shows, in memory and in the file."""
        out = [sorted(h.extract_keys(s)) for s in ('any', 'saved', 'loaded', 'generated')]
        out.append([int(i) for i in h.inds_active])
        for k in sorted(set(h.extract_keys('generated')) | {'sfr', 'mass'}):
            try:
                out.append([k, freeze(h.return_property(k, use_all_inds=True)), str(h.properties_units[k]), float(h.properties_h_dependence[k])])
            except Exception as e:
                out.append([k, type(e).__name__])
        with self.h5py.File(h.path, 'r') as f:
            g = f[h.groupname]
            out.append(sorted((k, str(g[k].dtype), freeze(g[k][()])) for k in g if k not in ('mass_cuts',) and k in ('lum', 'lum2', 'u', 'u2', 'w', 'w2', 'sfr', 'mass')))
        return out

    # ---------------------------------------------------------------- enumeration
    def settings(self, s, deep, few=False):
        """Settings of the optional arguments: index 0 is the default."""
        n = [len(o[2]) for o in s.opt]
        some = [i for i, k in enumerate(n) if k]
        yield ()
        for r in (1, 2, 3) if deep else (1, 2) if len(some) <= 5 and not few else (1,):
            for idx in itertools.combinations(some, r):
                for alt in itertools.product(*[range(1, n[i] + 1) for i in idx]):
                    yield tuple(zip(idx, alt))
        if len(some) > 2:
            yield tuple((i, 1) for i in some)
            if not deep:
                for i in some:
                    yield tuple((j, 1) for j in some if j != i)

    def cases(self, tier):
        deep = tier == 'thorough'
        # the names are known only after the set up in a worker: enumerate by number
        for k in range(NCALLS):
            for part in range(PARTS):
                yield {'call': k, 'part': part, 'deep': deep}

    def run(self, case, ctx):
        names = list(self.scenes)
        ctx.expect(len(names) == NCALLS, 'calls', lambda: '{} calls are described'.format(len(names)))
        name = names[case['call']]
        s = self.scenes[name]
        for k, setting in enumerate(dict.fromkeys(self.settings(s, case['deep'], name.startswith('h ') or ' h ' in name))):
            if k % PARTS == case['part']:
                self.compare(ctx, name, s, dict(setting), case['deep'])

    def once(self, s, setting, omit, npos):
        """One call: arguments in `omit` are left out, the first npos of the rest are given by position."""
        fn, post = s.build()
        pos = [fresh(v) for _, v in s.lead]
        kw = {k: fresh(v) for k, v in s.fixed.items()}
        vals = [(k, fresh(v)) for k, v in s.req]
        for i, (k, d, alts) in enumerate(s.opt):
            vals.append((k, None if i in omit else fresh(alts[setting[i] - 1] if i in setting else d)))
        left = {len(s.req) + i for i in omit}
        for i, (k, v) in enumerate(vals):
            if i in left:
                continue
            if i < npos:
                pos.append(v)
            else:
                kw[k] = v
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = fn(*pos, **kw)
                return post(r), None
        except Exception as e:
            return 'raises ' + type(e).__name__, e
        finally:
            self.plt.close('all')

    def compare(self, ctx, name, s, setting, deep):
        ctx.evals = getattr(ctx, 'evals', 0) or 0
        want, err = self.once(s, setting, (), 0)
        ctx.step()
        given = {s.opt[i][0]: s.opt[i][2][a - 1] for i, a in setting.items()}
        given = {k: '...' if isinstance(v, New) else v for k, v in given.items()}
        if err is not None and not isinstance(err, (ValueError, NotImplementedError, KeyError, NameError, TypeError, IndexError)):
            raise err
        free = [i for i, (k, d, a) in enumerate(s.opt) if i not in setting and (not isinstance(d, New) or isinstance(d, New2))]
        forms = [((i,), 0) for i in free] + [(c, 0) for c in itertools.combinations(free, 2) if (deep or not setting) and len(free) <= 12] + ([(tuple(free), 0)] if len(free) > 2 else [])
        total = len(s.req) + len(s.opt)
        if not s.byname:
            forms += [((), n) for n in range(1, total + 1)]
            # by position as far as the arguments given go
            last = max([len(s.req) + i + 1 for i in setting] + [len(s.req)])
            forms.append((tuple(i for i in free if len(s.req) + i >= last), last))
        for omit, npos in dict.fromkeys(forms):
            got, e = self.once(s, setting, omit, npos)
            ctx.step()
            what = lambda: '{} with {}{}: '.format(name, given or 'the defaults', ' leaving out ' + ', '.join(s.opt[i][0] for i in omit) if omit else '') + ('{} arguments by position'.format(npos) if npos else '')
            ctx.expect(got == want, 'default' if omit else 'position', lambda: '{}: gives {} instead of {} {!r} {!r}'.format(what(), self.brief(got, want), self.brief(want, got), e, err))
            if omit and err is None:
                ctx.interesting()
        ctx.evals += len(forms)
        ctx.state((name, sorted(setting.items())))

    def brief(self, a, b):
        """The first differing piece."""
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            for x, y in zip(a, b):
                if x != y:
                    return self.brief(x, y)
        return str(a)[:120]


RAW = {s: [dict(id=10 * s + i, x=500. + 1000 * i, y=200. + 700 * i, z=100. + 300 * i, m=1e10 * (1 + i * (s + 1)), t_a=1., t_n=2., t_b=3., s=4. + i, n_n=5., n_b=6., g=7. + i) for i in range(3)] for s in range(2)}
NCALLS, PARTS = 183, 4
CHECK = C()
