"""C14  Fourier transforms and power spectra: correct values, correct axes, and sources left as they were."""
import itertools
import numpy as np
from . import core, gridmodel as gm
from .core import Check
from .gridmodel import Dim, Model

SHAPES = {'1': [(4, .5)], '1o': [(5, .25)], '2': [(3, .5), (4, 2.)], '3': [(2, .5), (3, 1.), (2, 4.)], '1x': [(1, 2.), (3, 1.)]}


def subsets(n):
    return [list(s) for k in range(n + 1) for s in itertools.combinations(range(n), k)]


class C(Check):
    id = 'C14'
    technique = 'exhaustive enumeration of grid shapes x current Fourier state of both grids x requested axes x every option, and of all transform sequences, real FFT code vs. a direct DFT-matrix model'
    rule = 'one case = one configuration; non-trivial if some axis is transformed and some is not, or two grids are involved'
    assumptions = ()
    needs_root = False
    chunk = 20

    def setup(self):
        from simim.map import gridder
        self.g = gridder

    def make(self, kind, props, seed, cplx=0):
        D = [Dim(i - 1.5, n, p, 'u{}'.format(i)) for i, (n, p) in enumerate(SHAPES[kind])]
        units = ['K{}'.format(i) for i in range(props)]
        g = self.g.Grid(props, [d.center for d in D], [d.side for d in D], [d.pix for d in D], axunits=[d.unit for d in D], gridunits=units)
        g.init_grid()
        shape = g.grid.shape
        data = ((np.arange(np.prod(shape)) * (7 + seed) + seed) % 11 - 3.).reshape(shape)
        g.grid = data.copy()
        m = Model(D, data.copy(), units)
        m.scale = 100.
        return g, m

    def cases(self, tier):
        deep = tier == 'thorough'
        for kind in SHAPES:
            n = len(SHAPES[kind])
            # all transform sequences
            opts = subsets(n)[1:] + [None]
            for L in range(1, (5 if deep else 4) if n < 3 else (4 if deep else 3)):
                for seq in itertools.product(opts, repeat=L):
                    for norm in (0, 1):
                        yield {'seq': [kind, list(seq), norm]}
            for pre, ax, norm, inplace, props in itertools.product(subsets(n), subsets(n)[1:] + [None], (0, 1), (0, 1), (1, 2)):
                yield {'pow': [kind, pre, ax, norm, inplace, props]}
            for pre, pre2, ax, inplace, (pa, pb) in itertools.product(subsets(n), subsets(n), subsets(n)[1:] + [None], (0, 1), ((1, 1), (2, 2), (1, 2), (2, 1))):
                if n < 3 or deep or (pre in ([], [0, 1, 2], [1]) and pre2 in ([], [0], [0, 1, 2])):
                    yield {'cross': [kind, pre, pre2, ax, inplace, pa, pb]}
        for bad in ('again', 'againft', 'shape', 'dims', 'props', 'inactive', 'crossinactive', 'crosspower', 'notgrid', 'ax', 'axft', 'axneg'):
            for pre in (0, 1):
                yield {'bad': [bad, pre]}

    def run(self, case, ctx):
        kind = next(iter(case))
        getattr(self, 'run_' + kind)(case[kind], ctx)
        ctx.state(case)

    def expect(self, ctx, g, m, key, what):
        d = gm.diff(g, m, 1e-10)
        ctx.expect(d is None, key, lambda: '{}: {} is {} expected {}'.format(what, *d))

    def run_seq(self, c, ctx):
        kind, seq, norm = c
        g, m = self.make(kind, 2, 0)
        m.scale = 1e3
        for ax in seq:
            give = ax[0] if ax is not None and len(ax) == 1 else ax
            g.fourier_transform(give, normalize=bool(norm)) if norm == 0 else g.fourier_transform(give)
            m.fourier(range(len(m.dims)) if ax is None else ax, bool(norm))
            ctx.step()
            self.expect(ctx, g, m, 'transform', 'after transforms {}'.format(seq))
        # the spectrum of a single wave has a single peak at its frequency
        if len(seq) == 1 and seq[0] is not None and len(seq[0]) == 1:
            a = seq[0][0]
            d = m.dims[a]
            for k in range(d.n):
                h, _ = self.make(kind, 1, 0)
                s = [1] * (len(m.dims) + 1)
                s[a] = -1
                f = d.fcenters[k]
                h.grid = np.zeros(h.grid.shape, dtype=complex) + np.exp(2j * np.pi * f * np.arange(d.n) * d.pix).reshape(s)
                h.fourier_transform(a)
                peak = np.moveaxis(h.grid, a, 0).reshape(d.n, -1)
                ctx.expect(np.allclose(h.fourier_axes_centers[a][int(np.argmax(np.abs(peak[:, 0])))], f) and np.allclose(np.delete(peak, k, 0), 0, atol=1e-9)
                           and np.allclose(peak[k], d.n * d.pix if norm or True else d.n), 'peak', 'wave of frequency {} found elsewhere'.format(f))
                ctx.step()
        if len(seq) > 1 or len(m.dims) > 1:
            ctx.interesting()

    def power(self, m, ax, norm, other=None):
        ax = range(len(m.dims)) if ax is None else ax
        out = []
        for x in [m] + ([other] if other is not None else []):
            y = x.copy()
            y.fourier([i for i, d in enumerate(y.dims) if d.fourier != (i in ax)], norm)
            out.append(y)
        p = out[0].copy()
        p.data = (out[0].data * np.conj(out[-1].data)).real
        p.scale = max(1., float(np.max(np.abs(p.data))), float(np.max(np.abs(out[0].data))) * float(np.max(np.abs(out[-1].data))))
        if len(p.units) != p.data.shape[-1]:
            p.units = [p.units[0]] * p.data.shape[-1]
        return p

    def run_pow(self, c, ctx):
        kind, pre, ax, norm, inplace, props = c
        g, m = self.make(kind, props, 1)
        if pre:
            g.fourier_transform(pre)
            m.fourier(pre)
        want = self.power(m, ax, bool(norm))
        kw = {} if norm else {'normalize': False}
        m.scale = 1e3
        p = g.power_spectrum(ax=ax, in_place=bool(inplace), **kw)
        ctx.step()
        self.expect(ctx, p, want, 'power', 'power spectrum {}'.format(c))
        ctx.expect(bool(p.is_power_spectrum), 'flag', 'power spectrum not marked as one')
        if inplace:
            ctx.expect(p is g, 'inplace', 'in_place did not return the grid itself')
        else:
            if norm:
                self.expect(ctx, g, m, 'source-changed', 'source grid after power spectrum {}'.format(c))
                ctx.expect(not g.is_power_spectrum, 'flag', 'source marked as power spectrum')
                before = gm.snap(p)
                g.grid *= 2
                ctx.expect(gm.snap(p) == before, 'shared', 'power spectrum shares memory with the grid')
        if len(m.dims) > 1:
            ctx.interesting()

    def run_cross(self, c, ctx):
        kind, pre, pre2, ax, inplace, pa, pb = c
        g, m = self.make(kind, pa, 1)
        h, k = self.make(kind, pb, 4)
        for gg, mm, pp in ((g, m, pre), (h, k, pre2)):
            if pp:
                gg.fourier_transform(pp)
                mm.fourier(pp)
            mm.scale = 1e3
        want = self.power(m, ax, True, k)
        p = g.power_spectrum(h, ax=ax, in_place=bool(inplace))
        ctx.step()
        self.expect(ctx, p, want, 'cross', 'cross spectrum {}'.format(c))
        self.expect(ctx, h, k, 'cross-changed', 'second grid after cross spectrum {}'.format(c))
        ctx.expect(not h.is_power_spectrum, 'flag', 'second grid marked as power spectrum')
        if not inplace:
            self.expect(ctx, g, m, 'source-changed', 'first grid after cross spectrum {}'.format(c))
            q = g.power_spectrum(g.copy(), ax=ax)
            s = g.power_spectrum(g, ax=ax)
            r = g.power_spectrum(ax=ax)
            ctx.expect(gm.close(q.grid, r.grid) and gm.close(s.grid, r.grid), 'auto', 'cross spectrum of a grid with itself is not its power spectrum')
            ctx.step(3)
        ctx.interesting()

    def run_bad(self, c, ctx):
        bad, pre = c
        g, _ = self.make('2', 2, 1)
        h, _ = self.make('2', 2, 3)
        call = lambda: g.power_spectrum(h)
        if bad in ('again', 'againft'):
            g.power_spectrum(in_place=True)
            call = {'again': lambda: g.power_spectrum(), 'againft': lambda: g.fourier_transform()}[bad]
        elif bad == 'shape':
            h = self.g.Grid(2, (0, 0), (4, 4), (1, 1))
            h.init_grid()
        elif bad == 'dims':
            h, _ = self.make('3', 2, 1)
        elif bad == 'props':
            h, _ = self.make('2', 3, 1)
        elif bad == 'inactive':
            g = self.g.Grid(2, (0, 0), (4, 4), (1, 1))
        elif bad == 'crossinactive':
            h = self.g.Grid(2, (0, 0), (4, 4), (1, 1))
        elif bad == 'crosspower':
            h.power_spectrum(in_place=True)
        elif bad == 'notgrid':
            call = lambda: g.power_spectrum(np.ones(g.grid.shape))
        elif bad == 'ax':
            call = lambda: g.power_spectrum(h, ax=[0, 2])
        elif bad == 'axft':
            call = lambda: g.fourier_transform([1, 2])
        elif bad == 'axneg':
            call = lambda: g.fourier_transform(-1)
        if pre and g.grid_active and not g.is_power_spectrum:
            g.fourier_transform(1)
        b = gm.snap(g), gm.snap(h)
        try:
            call()
        except Exception:
            pass
        else:
            ctx.fail('accepted', '{} should have been refused'.format(c))
        ctx.step()
        ctx.interesting()
        ctx.expect((gm.snap(g), gm.snap(h)) == b, 'refused-changed', 'refused request {} changed a grid'.format(c))


CHECK = C()
