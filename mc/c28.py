"""C28  Plots and animations show exactly the stored values and change nothing."""
import copy, itertools, os
import numpy as np
from . import core, fake, lcmodel as lm, instmodel as im
from .core import Check

H = .5
VALS = {'a': [1., 4., 2., 2., 8., .5], 'b': [3., -1., 3., 0., 2., 5.], 'mass': [6e12, 5e12, 4e12, 3e12, 2e12, 1e12]}
HDEP = {'a': 0, 'b': 2, 'mass': -1}
SEL = {'all': None, 'some': ('a', 1.5, 3.), 'none': ('a', 100., 200.)}
KINDS = {'box': ('TNG300-1', 'box', 1.), 'circle': ('TNG300-1', 'circle', .5)}
Z = (.01, .1)
SHAPES = {2: (3, 2), 3: (2, 3, 4), 33: (3, 3, 3), 4: (2, 3, 2, 4), 5: (2, 3, 2, 2, 3)}


def rows(c):
    """Nested list / dictionary copy for comparisons."""
    return copy.deepcopy(c)


class C(Check):
    id = 'C28'
    technique = 'exhaustive enumeration of plot requests (handler, grid, light cone, instrument) x settings; the figures drawn by the real code vs. the stored values'
    rule = 'one case = one plot request; non-trivial if several values are drawn'
    assumptions = ('figures are inspected through the public matplotlib artists; appearance (colours of lines, labels) is not judged',)
    chunk = 8

    def setup(self):
        import h5py
        import matplotlib
        import matplotlib.pyplot as plt
        from matplotlib import animation, colors, collections
        from simim.siminterface.simhandler import SnapHandler
        from simim.map import gridder
        from simim.lightcone import LCMaker, LCHandler
        from simim.instrument.instrument import Instrument
        self.h5py, self.Snap, self.g, self.LCHandler, self.Instrument = h5py, SnapHandler, gridder, LCHandler, Instrument
        self.mpl, self.plt, self.anim, self.coll = matplotlib, plt, animation, collections
        self.cmap = matplotlib.colormaps['viridis']
        self.path = core.fresh_dir(core.ROOT, 'sel')
        d = {k: [1.] * 6 for k in ('pos_x', 'pos_y', 'pos_z')}
        d.update(VALS)
        fake.write_sim(h5py, self.path, [(0, 0.5)], {0: d}, h=H, units={'a': ('u', 0.), 'b': ('u', 2.)})
        self.file = os.path.join(self.path, 'data.hdf5')
        self.cosmo = fake.cosmology(H, .3, .05)
        lm.memoize_cosmology()
        p = core.fresh_dir(core.ROOT, 'sim')
        halos = {i: lm.lattice(8, 60., (.1 * i, .3, .6), [5e11, 2e12, 1e12, 3e11, 1e13]) for i in (2, 5, 6)}
        fake.write_sim(h5py, p, [(2, .09), (5, .04), (6, 0.)], halos, box=60., h=H, name='TNG300-1')
        fake.register('TNG300-1', p)
        self.lc = {}
        for k, (sim, shape, aspect) in KINDS.items():
            mk = LCMaker(sim, k, 5., aspect, redshift_min=Z[0], redshift_max=Z[1], mode=shape, overwrite=True)
            mk.build_lightcones(1, rng=lm.Script([[.5, .25, .125]], lm.FLIPS[1:], [[.4, .6, .5]], [.15]))
            self.lc[k] = os.path.join(mk.lc_path, 'lc_0000.hdf5')
            if not os.path.exists(self.lc[k]):
                self.lc[k] = sorted(os.path.join(mk.lc_path, f) for f in os.listdir(mk.lc_path) if f.endswith('hdf5'))[0]
            self.lcname = getattr(self, 'lcname', {})
            self.lcname[k] = (sim, k)

        check = self

        @animation.writers.register('capture')
        class Capture(animation.AbstractMovieWriter):
            @classmethod
            def isAvailable(cls):
                return True

            def __init__(self, *a, **k):
                super().__init__(fps=5)

            def setup(self, fig, outfile, dpi=None):
                self.fig, self.outfile, self.dpi = fig, outfile, 50
                check.saved = str(outfile)
                check.frames = []

            def grab_frame(self, **k):
                check.frames.append(check.read(self.fig))

            def finish(self):
                pass
        matplotlib.rcParams['animation.writer'] = 'capture'

    # ---- reading figures
    def read(self, fig):
        out = {'title': fig.get_suptitle(), 'axes': []}
        for ax in fig.axes:
            a = {'title': ax.get_title(), 'lines': [np.array(l.get_xydata(), dtype=float) for l in ax.lines], 'mesh': [], 'points': [], 'xlabel': ax.get_xlabel(), 'ylabel': ax.get_ylabel(),
                 'legend': ax.get_legend() is not None, 'bars': [(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches]}
            for c in ax.collections:
                if hasattr(c, 'get_coordinates'):
                    a['mesh'].append((np.array(c.get_coordinates()), np.array(np.ma.getdata(c.get_array())), c.get_clim()))
                elif isinstance(c, self.coll.PathCollection):
                    a['points'].append((np.array(c.get_offsets()), np.array(c.get_sizes()), np.array(c.get_facecolors())))
            out['axes'].append(a)
        return out

    def cases(self, tier):
        deep = tier == 'thorough'
        ys = [('a',), ('b',), ('a', 'b'), ('b', 'mass', 'a')]
        for sel in SEL:
            for x, y in itertools.product(('a', 'mass', 'b'), ys if deep else ys[:3]):
                for inds in (False, True, 'compare'):
                    for dh, hu in itertools.product((True, False), (None, True, False)):
                        for kw in ({}, {'marker': 'x'}, {'ls': '-'}, {'linestyle': ':', 'lw': 2}) if deep or x == 'mass' else ({},):
                            yield {'plot': sel, 'x': x, 'y': y, 'inds': inds, 'dh': dh, 'hu': hu, 'kw': kw, 'save': hu is None}
            if sel != 'none':
                for y in (('a',), ('mass',), ('a', 'mass'), ('b',)):
                    for inds in (False, True):
                        for dh, hu in itertools.product((True, False), (None, True, False)):
                            for log in (False, True):
                                for kw in ({}, {'bins': 3}, {'bins': 4, 'cumulative': True}):
                                    if not log or y != ('b',):
                                        yield {'hist': sel, 'y': y, 'inds': inds, 'dh': dh, 'hu': hu, 'log': log, 'kw': kw}
        for s, sh in SHAPES.items():
            n = len(sh)
            for ax in itertools.permutations(range(n), 2):
                rest = [i for i in range(n) if i not in ax]
                cuts = ['sum'] + [list(c) for c in itertools.product(*[range(sh[i]) for i in rest])]
                for cut in cuts:
                    for prop in (0, 1) if deep or s != 5 else (1,):
                        for f in ((), (0,), tuple(range(n))) if deep or cut == 'sum' and s != 5 else ((),):
                            yield {'show': s, 'ax': ax, 'cut': cut, 'prop': prop, 'f': f}
            if n > 2 and (deep or s != 5):
                for d in itertools.permutations(range(n), 3):
                    for prop in (0, 1):
                        for log in (False, True):
                            for f in ((), (d[0],), (d[1], d[2])):
                                for still in (False, True):
                                    for i0 in range(sh[d[0]]) if still or deep else (0, 1):
                                        if deep or not (f and log) and (i0 == 0 or not f):
                                            yield {'anim': s, 'd': d, 'prop': prop, 'log': log, 'f': f, 'still': still, 'i0': i0}
        yield {'animbad': 0}
        for k in KINDS:
            for sel in ('all', 'some'):
                for dh, hu in itertools.product((True, False), (None, True, False)):
                    for inds in (False, True):
                        for c, s in itertools.product((('mass', 'log'), ('redshift', 'linear')), repeat=2) if deep or (dh, hu) == (True, None) else (((('mass', 'log'),) * 2),):
                            yield {'lc': k, 'sel': sel, 'dh': dh, 'hu': hu, 'inds': inds, 'color': c, 'size': s}
        for det in itertools.product(range(4), repeat=3 if deep else 2):
            for rng in itertools.product((None, 60.), (None, 150.)):
                yield {'spec': det, 'rng': rng}
                for names in (None, (0,), (1,), (1, 0)):
                    for fs in (None, 100.):
                        if deep or rng == (None, None) or det in ((0, 1), (2, 3), (3, 2)):
                            yield {'det': det, 'rng': rng, 'names': names, 'fs': fs}

    def run(self, case, ctx):
        plt = self.plt
        plt.close('all')
        before = dict(self.mpl.rcParams)
        try:
            for k in ('plot', 'hist', 'show', 'animbad', 'anim', 'lc', 'spec', 'det'):
                if k in case:
                    getattr(self, 'run_' + k)(case, ctx)
                    break
            ctx.expect(dict(self.mpl.rcParams) == before, 'style', lambda: '{} changes the style of later plots'.format(case))
        finally:
            plt.close('all')
            self.mpl.rcParams.update({k: v for k, v in before.items() if not k.startswith('backend')})
        ctx.state(tuple(sorted((k, str(v)) for k, v in case.items())))

    # ---- handlers
    def handler(self, case):
        sn = self.Snap(self.file, 0, H, self.cosmo, 8., in_h_units=case['dh'])
        sel = SEL[case.get('plot', case.get('hist'))]
        act = list(range(6))
        if sel:
            sn.set_property_range(sel[0], sel[1], sel[2])
            act = [i for i in act if sel[1] <= VALS[sel[0]][i] <= sel[2]]
        hu = case['dh'] if case['hu'] is None else case['hu']

        def val(p, inds):
            v = [np.float32(x) * (1 if hu else H ** HDEP[p]) for x in VALS[p]]
            return np.array(v if inds else [v[i] for i in act], dtype=float)
        return sn, act, val

    def unchanged(self, ctx, case, sn, act, before):
        ctx.expect([int(i) for i in sn.inds_active] == act and sn.default_in_h_units == case['dh'], 'effect', lambda: '{} changes the selection'.format(case))
        ctx.expect(open(self.file, 'rb').read() == before, 'effect', lambda: '{} changes the file'.format(case))
        for p in VALS:
            ctx.expect(np.array_equal(sn.return_property(p, use_all_inds=True, in_h_units=True), np.asarray(VALS[p], dtype='f')), 'effect', lambda: '{} changes {}'.format(case, p))

    def run_plot(self, case, ctx):
        sn, act, val = self.handler(case)
        before = open(self.file, 'rb').read()
        kw, akw = dict(case['kw']), {'xscale': 'log'}
        p = os.path.join(core.fresh_dir(ctx.scratch), 'f.png')
        extra = {'in_h_units': case['hu']} if case['hu'] is not None else {}
        if case['save']:
            extra['save'] = p
        sn.plot(case['x'], *case['y'], use_all_inds=case['inds'], plotkws=kw, axkws=akw, **extra)
        ctx.step()
        ctx.expect(kw == case['kw'] and akw == {'xscale': 'log'}, 'input', lambda: '{} changes the keywords given to {} and {}'.format(case, kw, akw))
        ctx.expect(os.path.exists(p) == case['save'], 'save', lambda: '{}: file saved: {}'.format(case, os.path.exists(p)))
        f = self.read(self.plt.gcf())
        want = []
        for y in case['y']:
            for i in ((True, False) if case['inds'] == 'compare' else (case['inds'],)):
                want.append(np.array([val(case['x'], i), val(y, i)]).T)
        got = f['axes'][0]['lines']
        ok = len(got) == len(want) and all(a.shape == b.shape and np.allclose(np.array(sorted(map(tuple, a))), np.array(sorted(map(tuple, b))), rtol=1e-5) for a, b in zip(got, want))
        ctx.expect(len(f['axes']) == 1 and ok, 'plot', lambda: '{}: plotted {} expected {}'.format(case, got, want))
        ctx.expect(f['axes'][0]['legend'] or len(case['y']) == 1, 'legend', lambda: '{}: no legend'.format(case))
        self.unchanged(ctx, case, sn, act, before)
        ctx.interesting(len(act) > 1)

    def run_hist(self, case, ctx):
        sn, act, val = self.handler(case)
        before = open(self.file, 'rb').read()
        kw = dict(case['kw'])
        extra = {'in_h_units': case['hu']} if case['hu'] is not None else {}
        sn.hist(*case['y'], use_all_inds=case['inds'], logtransform=case['log'], plotkws=kw, **extra)
        ctx.step()
        ctx.expect(kw == case['kw'], 'input', lambda: '{} changes the keywords given to {}'.format(case, kw))
        got = self.read(self.plt.gcf())['axes'][0]['bars']
        n = case['kw'].get('bins', 10)
        ctx.expect(len(got) == n * len(case['y']), 'hist', lambda: '{}: {} bars'.format(case, len(got)))
        for k, y in enumerate(case['y']):
            v = val(y, case['inds'])
            v = np.log10(v) if case['log'] else v
            bars = sorted(got[k * n:(k + 1) * n])
            lo, w = bars[0][0], bars[0][1]
            hi = bars[-1][0] + bars[-1][1]
            span = v.max() - v.min()
            tol = 1e-5 * max(abs(v).max(), span)
            ctx.expect(abs(lo - (v.min() if span else v.min() - .5)) <= tol and abs(hi - (v.max() if span else v.max() + .5)) <= tol, 'hist', lambda: '{}: bars from {} to {}, values {}'.format(case, lo, hi, v))
            cum = 0
            for x, w, h in bars:
                inside = int(np.sum((v >= x + tol) & (v < x + w - tol)))
                maybe = int(np.sum((v >= x - tol) & (v < x + w + tol)))
                if case['kw'].get('cumulative'):
                    ctx.expect(h >= cum and np.sum(v < x + w - tol) <= h <= np.sum(v <= x + w + tol), 'hist', lambda: '{}: bars {} values {}'.format(case, bars, v))
                    cum = h
                else:
                    ctx.expect(inside <= h <= maybe, 'hist', lambda: '{}: bars {} values {}'.format(case, bars, v))
                    cum += h
            ctx.expect(cum == len(v), 'hist', lambda: '{}: {} values shown of {}'.format(case, cum, len(v)))
        self.unchanged(ctx, case, sn, act, before)
        ctx.interesting()

    # ---- grids
    def grid(self, s, f=()):
        sh = SHAPES[s]
        n = len(sh)
        pix = [1., .5, 2., .25, 3.][:n]
        g = self.g.Grid(2, [1., -2., 3., 0., 5.][:n], [a * b for a, b in zip(sh, pix)], pix, axunits=['Mpc', 'GHz', 's', 'K', 'm'][:n])
        g.init_grid()
        i = np.indices(sh)
        v = 1. + sum(i[k] * 10. ** k for k in range(n))
        a = np.stack([v, v ** 1.5 + 7], axis=-1)
        if f:
            # in Fourier space grids hold complex numbers
            g.grid = a
            g.fourier_transform(ax=list(f), normalize=False)
            a = a + 1j * a[::-1] * .25
        g.grid = a.copy()
        edges = []
        for k in range(n):
            if k in f:
                c = np.array([(m - sh[k] // 2) / (sh[k] * pix[k]) for m in range(sh[k])])
                w = 1 / (sh[k] * pix[k])
                edges.append(np.append(c - w / 2, c[-1] + w / 2))
            else:
                c0 = [1., -2., 3., 0., 5.][k]
                edges.append(c0 + pix[k] * (np.arange(sh[k] + 1) - sh[k] / 2))
        return g, a, edges

    def mesh(self, ctx, case, m, ex, ey, img, what, lims=None):
        xy, v, clim = m
        ctx.expect(xy.shape == (len(ey), len(ex), 2), what, lambda: '{}: mesh of {} x {} cells for an image of {}'.format(case, xy.shape[0] - 1, xy.shape[1] - 1, img.shape))
        ctx.expect(np.allclose(xy[..., 0], np.asarray(ex)[None, :], atol=1e-9) and np.allclose(xy[..., 1], np.asarray(ey)[:, None], atol=1e-9), what, lambda: '{}: cells at {} and {} expected {} and {}'.format(case, xy[0, :, 0], xy[:, 0, 1], ex, ey))
        w = np.asarray(img).T
        ctx.expect(v.size == w.size and np.allclose(v.reshape(w.shape), w, rtol=1e-9), what, lambda: '{}: image {} expected {}'.format(case, v, w))

    def run_show(self, case, ctx):
        g, a, edges = self.grid(case['show'], case['f'])
        ax = list(case['ax'])
        n = a.ndim - 1
        g.visualize(ax=ax, slice_indices=case['cut'], property=case['prop'])
        ctx.step()
        rest = [i for i in range(n) if i not in ax]
        img = np.zeros((a.shape[ax[0]], a.shape[ax[1]]))
        for idx in np.ndindex(a.shape[:-1]):
            if case['cut'] == 'sum' or [idx[i] for i in rest] == list(case['cut']):
                img[idx[ax[0]], idx[ax[1]]] += a[idx][case['prop']].real
        m = [m for x in self.read(self.plt.gcf())['axes'] for m in x['mesh']]
        ctx.expect(len(m) >= 1, 'visualize', lambda: '{}: no image'.format(case))
        self.mesh(ctx, case, m[0], edges[ax[0]], edges[ax[1]], img, 'visualize')
        ctx.expect(np.array_equal(g.grid, a) and ax == list(case['ax']), 'effect', lambda: '{} changes the grid'.format(case))
        ctx.interesting()

    def run_anim(self, case, ctx):
        g, a, edges = self.grid(case['anim'], case['f'])
        d, prop = case['d'], case['prop']
        n = a.ndim - 1
        p = os.path.join(core.fresh_dir(ctx.scratch), 'f.png')
        face = list(d[1:])
        r = g.animate(save=p if case['still'] else None, prop_ind=prop, slide_dim=d[0], face_dims=face, i0=case['i0'], still=case['still'], logscale=case['log'])
        ctx.step()
        ctx.expect(np.array_equal(g.grid, a) and face == list(d[1:]), 'effect', lambda: '{} changes the grid'.format(case))
        edge = np.zeros((a.shape[d[0]], a.shape[d[2]]))
        img = np.zeros((a.shape[d[0]], a.shape[d[1]], a.shape[d[2]]))
        for idx in np.ndindex(a.shape[:-1]):
            img[idx[d[0]], idx[d[1]], idx[d[2]]] += a[idx][prop].real
        edge = img.sum(axis=1)
        if case['log']:
            img, edge = np.log10(img), np.log10(edge)

        def judge(f, i, what):
            face = [x for x in f['axes'] if x['title'].startswith('Axis')]
            side = [x for x in f['axes'] if x['title'].startswith('Summed')]
            ctx.expect(len(face) == 1 and len(side) == 1 and len(face[0]['mesh']) == 1 and len(side[0]['mesh']) == 1, 'animate', lambda: '{}: panels {}'.format(case, [x['title'] for x in f['axes']]))
            self.mesh(ctx, (case, what), face[0]['mesh'][0], edges[d[1]], edges[d[2]], img[i], 'animate')
            self.mesh(ctx, (case, what, 'summed'), side[0]['mesh'][0], edges[d[0]], edges[d[2]], edge, 'summed')
            mark = side[0]['lines'][-1]
            lo, hi = mark[:, 0].min(), mark[:, 0].max()
            ctx.expect(abs(lo - edges[d[0]][i]) < 1e-9 and abs(hi - edges[d[0]][i + 1]) < 1e-9, 'marker', lambda: '{} {}: slice marked from {} to {} expected {}'.format(case, what, lo, hi, edges[d[0]][i:i + 2]))
            c = (edges[d[0]][i] + edges[d[0]][i + 1]) / 2
            w = edges[d[0]][1] - edges[d[0]][0]
            t = float(face[0]['title'].split('=')[1])
            ctx.expect(abs(t - c) <= w / 2 + .0051, 'title', lambda: '{} {}: title {} for the slice at {}'.format(case, what, face[0]['title'], c))
            return t
        first = judge(self.read(self.plt.gcf()), case['i0'], 'first picture')
        if case['still']:
            ctx.expect(os.path.exists(p), 'save', lambda: '{}: nothing saved'.format(case))
        else:
            self.frames = []
            r.save('x.mp4', writer='capture')
            ctx.step(len(self.frames))
            ctx.expect(len(self.frames) == a.shape[d[0]], 'animate', lambda: '{}: {} frames'.format(case, len(self.frames)))
            ts = [judge(f, i, 'frame {}'.format(i)) for i, f in enumerate(self.frames)]
            ctx.expect(all(x < y for x, y in zip(ts, ts[1:])) and ts[case['i0']] == first, 'title', lambda: '{}: titles {} first {}'.format(case, ts, first))
        ctx.interesting()

    def run_animbad(self, case, ctx):
        def bad(fn, what):
            ctx.step()
            try:
                fn()
            except ValueError:
                return
            ctx.expect(False, 'errors', '{} is accepted'.format(what))
        g, a, e = self.grid(3)
        g2 = self.grid(2)[0]
        new = self.g.Grid(1, (0, 0, 0), (2, 2, 2), (1, 1, 1))
        for k, fn in (('visualize of an empty grid', lambda: new.visualize()), ('animate of an empty grid', lambda: new.animate()), ('animate of a flat grid', lambda: g2.animate()),
                      ('animate of property 2', lambda: g.animate(prop_ind=2)), ('animate along axis 3', lambda: g.animate(slide_dim=3)), ('animate of axis 3', lambda: g.animate(face_dims=[0, 3])),
                      ('animate of one axis', lambda: g.animate(face_dims=[0])), ('visualize of three axes', lambda: g.visualize(ax=[0, 1, 2])), ('visualize with too many slices', lambda: g.visualize(slice_indices=[0, 1]))):
            bad(fn, k)
        ctx.expect(np.array_equal(g.grid, a), 'effect', 'errors change the grid')
        ctx.interesting()

    # ---- light cones
    def run_lc(self, case, ctx):
        path = self.lc[case['lc']]
        lc = self.LCHandler(*self.lcname[case['lc']], 0, in_h_units=case['dh'])
        if case['sel'] == 'some':
            lc.set_property_range('mass', 8e11, 4e12)
        act = [int(i) for i in lc.inds_active]
        before = open(path, 'rb').read()
        hu = case['dh'] if case['hu'] is None else case['hu']
        with self.h5py.File(path, 'r') as f:
            basic, full = lm.table(f)[:2]
        tab = dict(basic, **full)
        t = {k: np.asarray(tab[k], dtype=float) for k in ('pos_x', 'pos_y', 'pos_z', 'ra', 'dec', 'redshift', 'mass')}
        if not case['inds']:
            t = {k: v[act] for k, v in t.items()}
        s = 1. if hu else 1 / H
        x, y, z = [t[k] * s for k in ('pos_x', 'pos_y', 'pos_z')]
        t['mass'] = t['mass'] * s
        shade = {}
        for n, (prop, scale) in (('color', case['color']), ('size', case['size'])):
            v = np.log10(t[prop]) if scale == 'log' else t[prop]
            shade[n] = (v - v.min()) / (v.max() - v.min())
        extra = {'in_h_units': case['hu']} if case['hu'] is not None else {}
        self.frames, self.saved = [], None
        lc.animate(save=os.path.join(ctx.scratch, 'cone'), use_all_inds=case['inds'], colorpropname=case['color'][0], colorscale=case['color'][1], sizepropname=case['size'][0], sizescale=case['size'][1], **extra)
        ctx.step(len(self.frames))
        ctx.expect(self.saved is not None and self.saved.endswith('cone.mp4') and len(self.frames) > 0, 'animate', lambda: '{}: nothing saved'.format(case))
        ctx.expect([int(i) for i in lc.inds_active] == act and open(path, 'rb').read() == before and lc.default_in_h_units == case['dh'], 'effect', lambda: '{} changes the light cone'.format(case))
        lim = [self.cosmo.comoving_distance(v).value * (H if hu else 1) for v in Z]
        ang = 5. * np.pi / 180
        shown = np.zeros(len(z))
        edges = []
        for k, f in enumerate(self.frames):
            by = {n: [a for a in f['axes'] if a['title'].startswith(n)] for n in ('Light', 'Physical', 'Angular')}
            ctx.expect(all(len(v) == 1 for v in by.values()), 'animate', lambda: '{}: panels {}'.format(case, [a['title'] for a in f['axes']]))
            cone, xy, sky = [by[n][0] for n in ('Light', 'Physical', 'Angular')]
            for a, want, n in ((cone, (z, x), 'cone'), (xy, (x, y), 'physical'), (sky, (t['ra'] * 180 / np.pi * 60, t['dec'] * 180 / np.pi * 60), 'angular')):
                pts = a['points'][0]
                ctx.expect(pts[0].shape == (len(z), 2) and np.allclose(pts[0], np.array(want).T, rtol=1e-5, atol=1e-6 * np.abs(want).max()), 'points', lambda: '{}: {} panel of frame {} shows halos at {} expected {}'.format(case, n, k, pts[0][:5], np.array(want).T[:5]))
                ctx.expect(np.allclose(pts[2][:, :3], self.cmap(shade['color'])[:, :3], atol=.02), 'color', lambda: '{}: colours of the {} panel'.format(case, n))
            slab = cone['lines'][0]
            lo, hi = slab[:, 0].min(), slab[:, 0].max()
            edges.append((lo, hi))
            inside = (z > lo * (1 + 1e-6)) & (z < hi * (1 - 1e-6))
            outside = (z < lo * (1 - 1e-6)) | (z > hi * (1 + 1e-6))
            for a, n in ((xy, 'physical'), (sky, 'angular')):
                sz = a['points'][0][1]
                ctx.expect(len(sz) == len(z) and np.allclose(sz[inside], (shade['size'][inside] + .2) * 5, rtol=1e-3) and np.all(sz[outside] == 0), 'slab',
                           lambda: '{}: {} panel of frame {} ({} to {}) shows the halos at {}, there are halos at {}'.format(case, n, k, lo, hi, sorted(z[sz > 0])[:10], sorted(z[inside])[:10]))
            shown += xy['points'][0][1] > 0
            mid = (lo + hi) / 2 / (H if hu else 1)
            zt = float(f['title'].split('=')[1].split()[0])
            ctx.expect(self.cosmo.comoving_distance(zt + .0051).value >= mid and self.cosmo.comoving_distance(max(zt - .0051, 0)).value <= mid, 'title', lambda: '{}: frame {} from {} to {} has the title {}'.format(case, k, lo, hi, f['title']))
            out = np.abs(xy['lines'][0])
            r = mid * (H if hu else 1) * ang / 2
            top = out[:, 0].max()
            ctx.expect(abs(top - r) <= .01 * r, 'outline', lambda: '{}: outline of frame {} at {} has a half-width of {} expected {}'.format(case, k, mid, top, r))
        edges.sort()
        ctx.expect(edges[0][0] <= lim[0] * 1.001 and edges[-1][1] >= lim[1] * .999 and edges[-1][0] < lim[1] and all(abs(a[1] - b[0]) <= 1e-6 * a[1] for a, b in zip(edges, edges[1:])), 'frames', lambda: '{}: frames cover {} of {}'.format(case, edges, lim))
        free = [all(abs(v - e) > 1e-5 * v for p in edges for e in p) and lim[0] * 1.001 < v < lim[1] * .999 for v in z]
        ctx.expect(np.all(shown[free] == 1), 'frames', lambda: '{}: halos shown {} times'.format(case, sorted(set(shown[free]))))
        ctx.interesting(len(edges) > 1)

    # ---- instruments
    DET = [(100., 'gauss', {'fwhmx': 2., 'fwhmy': 5., 'cx': 1.}, 'gauss', {'freq0': 100., 'fwhm': 8.}), (90., 'gauss', {'fwhmx': 3., 'fwhmy': 3., 'cy': -2.}, 'boxcar', {'freq0': 90., 'width': 20.}),
           (120., 'custom', {}, 'custom', {'p': .5}), (80., 'spec-gauss', {'freq0': 100., 'fwhmx': 4., 'fwhmy': 1.}, 'gauss', {'A': 3., 'freq0': 85., 'fwhm': 30.})]

    def instrument(self, dets):
        i = self.Instrument(spatial_unit='arcmin', spectral_unit='GHz', flux_unit='Jy', best_spatial_res=1.3, best_spectral_res=1.)
        for n, k in enumerate(dets):
            nom, sp, skw, sc, ckw = self.DET[k]
            i.add_detector('d{}'.format(n), nominal_frequency=nom, spatial_response=im.arg('spatial', sp), spatial_kwargs=dict(skw), spectral_response=im.arg('spectral', sc), spectral_kwargs=dict(ckw), noise_function='white')
        return i

    def line(self, ctx, case, xy, k, lo, hi):
        nom, sp, skw, sc, ckw = self.DET[k]
        want = im.spectrum(sc, ckw, xy[:, 0])
        ctx.expect(abs(xy[0, 0] - lo) < 1e-6 * hi and abs(xy[-1, 0] - hi) < 1e-6 * hi and np.all(np.diff(xy[:, 0]) > 0), 'range', lambda: '{}: frequencies {} to {} expected {} to {}'.format(case, xy[0, 0], xy[-1, 0], lo, hi))
        edge = np.abs(np.abs(xy[:, 0] - 90.) - 10.) < 1e-3
        return np.allclose(xy[~edge, 1], np.asarray(want)[~edge], rtol=1e-9, atol=1e-12)

    def run_spec(self, case, ctx):
        i = self.instrument(case['spec'])
        kw = {k: v for k, v in zip(('fmin', 'fmax'), case['rng']) if v is not None}
        i.plot_spectral_response(**kw)
        ctx.step()
        noms = [self.DET[k][0] for k in case['spec']]
        lo = kw.get('fmin', .9 * min(noms))
        hi = kw.get('fmax', 1.1 * max(noms))
        lines = self.read(self.plt.gcf())['axes'][0]['lines']
        left = list(case['spec'])
        for xy in lines:
            hit = [k for k in left if self.line(ctx, case, xy, k, lo, hi)]
            ctx.expect(hit, 'response', lambda: '{}: a curve belongs to no detector'.format(case))
            left.remove(hit[0])
        ctx.expect(not left, 'response', lambda: '{}: detectors {} are not shown'.format(case, left))
        ctx.interesting(len(set(case['spec'])) > 1)

    def run_det(self, case, ctx):
        i = self.instrument(case['det'])
        kw = {k: v for k, v in zip(('fmin', 'fmax'), case['rng']) if v is not None}
        if case['fs'] is not None:
            kw['fspatial'] = case['fs']
        if case['rng'][0]:
            kw.update(xmin=-3., ymax=4.)
        if case['rng'][1]:
            kw.update(xmax=2.5, ymin=-5.)
        which = range(len(case['det'])) if case['names'] is None else case['names']
        i.plot_detector_response(*([] if case['names'] is None else ['d{}'.format(n) for n in case['names']]), **kw)
        noms = [self.DET[case['det'][n]][0] for n in which]
        lo, hi = kw.get('fmin', .9 * min(noms)), kw.get('fmax', 1.1 * max(noms))
        x0, x1, y0, y1 = kw.get('xmin', -6.5), kw.get('xmax', 6.5), kw.get('ymin', -6.5), kw.get('ymax', 6.5)
        figs = [self.read(self.plt.figure(n)) for n in self.plt.get_fignums()]
        ctx.step(len(figs))
        ctx.expect(len(figs) == len(list(which)), 'figures', lambda: '{}: {} figures'.format(case, len(figs)))
        for n, f in zip(which, figs):
            k = case['det'][n]
            nom, sp, skw, sc, ckw = self.DET[k]
            ctx.expect('d{}'.format(n) in f['title'], 'figures', lambda: '{}: figure of {} is called {}'.format(case, n, f['title']))
            spec = [a for a in f['axes'] if not a['mesh']][0]
            ctx.expect(self.line(ctx, case, spec['lines'][0], k, lo, hi), 'response', lambda: '{}: spectral response of detector {}'.format(case, n))
            fs = case['fs'] or nom
            ctx.expect(np.allclose(spec['lines'][1][:, 0], fs), 'response', lambda: '{}: marked frequency {} expected {}'.format(case, spec['lines'][1], fs))
            xy, v, clim = [a for a in f['axes'] if a['mesh']][0]['mesh'][0]
            v = v.reshape(xy.shape[0] - 1, xy.shape[1] - 1)
            cx = (xy[0, 1:, 0] + xy[0, :-1, 0]) / 2
            cy = (xy[1:, 0, 1] + xy[:-1, 0, 1]) / 2
            ctx.expect(np.allclose([cx[0], cx[-1], cy[0], cy[-1]], [x0, x1, y0, y1], atol=.02 * (x1 - x0)), 'range', lambda: '{}: region {}'.format(case, [cx[0], cx[-1], cy[0], cy[-1]]))
            fn = im.SPATIAL[sp]
            for a, b in itertools.product(range(0, len(cx), 13), range(0, len(cy), 17)):
                w = fn(cx[a], cy[b], fs, **skw)
                ctx.expect(abs(v[b, a] - w) <= 1e-6 * abs(w) + 1e-12, 'spatial', lambda: '{}: response of detector {} at ({}, {}) is drawn as {} expected {}'.format(case, n, cx[a], cy[b], v[b, a], w))
        ctx.interesting()


CHECK = C()
