"""C16  Convolution and point-spread functions: linear, centred, normalised, and without side effects."""
import itertools, math
import numpy as np
from . import core, gridmodel as gm
from .core import Check
from .gridmodel import Dim, Model


def conv(a, s, axes):
    """Direct zero-padded convolution, output aligned with the centre cell ((n-1)//2) of the source."""
    out = np.zeros(a.shape)
    for k in itertools.product(*[range(s.shape[x]) for x in axes]):
        w = s
        v = a
        for x, kk in zip(axes, k):
            w = np.take(w, [kk], axis=x)
            sh = kk - (s.shape[x] - 1) // 2
            n = a.shape[x]
            idx = np.arange(n) - sh
            good = (idx >= 0) & (idx < n)
            v = np.take(v, np.clip(idx, 0, n - 1), axis=x)
            m = [1] * a.ndim
            m[x] = -1
            v = v * good.reshape(m)
        out = out + v * w
    return out


class C(Check):
    id = 'C16'
    technique = 'exhaustive enumeration of grid and kernel shapes x axes x padding x in-place, and of PSF parameters, real convolution vs. a direct sum and an analytic Gaussian'
    rule = 'one case = one (grid, kernel, options) or one PSF; non-trivial if the kernel is not symmetric or larger than one cell'
    assumptions = ('kernels with an even number of cells are aligned at their lower middle cell',)
    needs_root = False
    chunk = 20

    def setup(self):
        from simim.map import gridder
        self.g = gridder

    def make(self, shape, props, seed):
        g = self.g.Grid(props, [0.] * len(shape), [float(n) for n in shape], 1., gridunits='K')
        g.init_grid()
        g.grid[...] = ((np.arange(g.grid.size) * 5 + seed) % 7 - 1.).reshape(g.grid.shape)
        return g

    def cases(self, tier):
        deep = tier == 'thorough'
        pads = [None, 0, 1, 2, 'list', 'tuple', 'array']
        for n, k, p, inpl, props, kp in itertools.product((1, 2, 3, 4, 5, 6), (1, 2, 3, 4, 5, 8), pads, (0, 1), (1, 2), (1, 2)):
            if kp <= props:
                yield {'conv': [[n], [k], None, p, inpl, props, kp]}
        for sh, ks in itertools.product(itertools.product((1, 2, 3, 4), repeat=2), itertools.product((1, 2, 3), repeat=2)):
            for ax, p in itertools.product((None, [0], [1], [1, 0]), (None, 1, 'list')):
                ks2 = [k if ax is None or i in ax else (1 if k < 3 else sh[i]) for i, k in enumerate(ks)]
                for inpl in (0, 1):
                    yield {'conv': [list(sh), ks2, ax, p, inpl, 1, 1]}
            for inpl in (0, 1):
                yield {'conv': [list(sh), [ks[0]], None, None, inpl, 2, 1]}
        for sh, ks in itertools.product(itertools.product((2, 3), repeat=3), itertools.product((1, 2, 3), repeat=3)):
            for ax in (None, [0, 1], [2], [0, 2]):
                ks2 = [k if ax is None or i in ax else (1 if k < 3 else sh[i]) for i, k in enumerate(ks)]
                yield {'conv': [list(sh), ks2, ax, None if deep else (1 if sum(ks) % 2 else None), 0, 1, 1]}
            yield {'conv': [list(sh), list(ks[:2]), None, None, 1, 2, 1]}
        for bad in ('ndim', 'ax', 'pad', 'fourier', 'power', 'inactive', 'source', 'props', 'props1'):
            yield {'bad': bad}
        for fw, pix, side, norm in itertools.product(((1.,), (2., 3.), (1., 2., 1.5), 2.5, 3), (.5, 1, 'each'), (None, 3, 'each'), ('area', 'peak')):
            yield {'psf': [fw, pix, side, norm]}
        for spec in ([1., 2., 3.], [4., 2.], [1., 1.5, 2., 2.5], [3., 2., 1.]):
            for fw, pix, side, norm, ex in itertools.product(((2.,), (2., 3.), 1.5), (.5, 1, 'each'), (None, 4, 'each'), ('area', 'peak'), (1, 0, 2, -1)):
                yield {'spec': [spec, fw, pix, side, norm, ex]}

    def run(self, case, ctx):
        k = next(iter(case))
        getattr(self, 'run_' + k)(case[k], ctx)
        ctx.state(case)

    def run_conv(self, c, ctx):
        sh, ks, ax, pad, inpl, props, kp = c
        g = self.make(sh, props, 1)
        s = self.make(ks, kp, 3)
        a = np.array(g.grid)
        src = np.array(s.grid).reshape(list(ks) + [1] * (len(sh) - len(ks)) + [kp])
        axes = list(range(len(ks))) if ax is None else ax
        want = conv(a, src, axes)
        p = {'list': [1 + i for i in range(len(axes))], 'tuple': tuple(2 - i % 2 for i in range(len(axes))), 'array': np.arange(len(axes)) + 1}.get(pad, pad)
        b, bs = gm.snap(g), gm.snap(s)
        kw = {} if p is None else {'pad': p}
        r = g.convolve(s, ax=ax, in_place=bool(inpl), **kw)
        ctx.step()
        m = Model([Dim(-n / 2, n, 1.) for n in sh], want, ['K'] * props)
        m.scale = float(np.abs(a).max() * np.abs(src).sum())
        d = gm.diff(r, m)
        ctx.expect(d is None, 'conv', lambda: 'convolve {}: {} is {} expected {}'.format(c, *d))
        ctx.expect((r is g) == bool(inpl), 'inplace', 'in_place={} returned {}'.format(inpl, 'the grid' if r is g else 'another grid'))
        if not inpl:
            ctx.expect(gm.snap(g) == b, 'grid-changed', 'convolve {} changed the grid'.format(c))
        ctx.expect(gm.snap(s) == bs, 'kernel-changed', 'convolve {} changed the kernel'.format(c))
        if max(ks) > 1:
            ctx.interesting()

    def run_bad(self, bad, ctx):
        g, s = self.make([3, 2], 2, 1), self.make([3], 1, 2)
        kw = {}
        if bad == 'ndim':
            s = self.make([2, 2, 2], 1, 0)
        if bad == 'ax':
            kw['ax'] = [0, 2]
        if bad == 'pad':
            kw['pad'] = [1, 2]
        if bad == 'props':
            s = self.make([3], 3, 0)
        if bad == 'props1':
            g, s = self.make([3, 2], 1, 1), self.make([2, 2], 2, 0)
        if bad == 'fourier':
            g.fourier_transform(0)
        if bad == 'power':
            g.power_spectrum(in_place=True)
        if bad == 'inactive':
            g = g.copy_axes(2)
        if bad == 'source':
            s = s.copy_axes(1)
        b = gm.snap(g), gm.snap(s)
        try:
            g.convolve(s, **kw)
        except Exception:
            pass
        else:
            ctx.fail('accepted', 'convolution {} should have been refused'.format(bad))
        ctx.step()
        ctx.expect((gm.snap(g), gm.snap(s)) == b, 'refused-changed', 'refused convolution {} changed a grid'.format(bad))

    def run_psf(self, c, ctx):
        fw, pix, side, norm = c
        f = np.atleast_1d(np.array(fw, dtype=float))
        n = len(f)
        p = [.5, 1., .25][:n] if pix == 'each' else pix
        s = [3., 4., 2.][:n] if side == 'each' else side
        kw = {} if norm == 'area' else {'norm': norm}
        if s is not None:
            kw['side_length'] = s
        g = self.g.PSF(fw, p, axunits='rad', **kw)
        ctx.step()
        pv = np.broadcast_to(np.array(p, dtype=float), (n,))
        sv = 6 * f if s is None else np.broadcast_to(np.array(s, dtype=float), (n,))
        npx = [int(math.ceil(round(x / y, 6))) for x, y in zip(sv, pv)]
        want = np.ones(npx)
        for i in range(n):
            x = (np.arange(npx[i]) - (npx[i] - 1) / 2) * pv[i]
            shp = [1] * n
            shp[i] = -1
            want = want * (0.5 ** ((2 * x / f[i]) ** 2)).reshape(shp)
        if norm == 'area':
            want = want / want.sum()
        m = Model([Dim(-a * b / 2, a, b, 'rad') for a, b in zip(npx, pv)], want[..., None], [None])
        d = gm.diff(g, m)
        ctx.expect(d is None, 'psf', lambda: 'PSF {}: {} is {} expected {}'.format(c, *d))
        # a point source becomes the PSF, total preserved
        if norm == 'area' and n <= 2 and all(k % 2 for k in npx):
            t = self.g.Grid(1, [0.] * n, [a * b for a, b in zip(npx, pv)], pv)
            t.init_grid()
            t.grid[tuple(k // 2 for k in npx)] = 8.
            t.convolve(g)
            ctx.expect(gm.close(t.grid[..., 0], 8 * want), 'point', 'a point source does not become the PSF')
            ctx.step()
        ctx.interesting()

    def run_spec(self, c, ctx):
        spec, fw, pix, side, norm, ex = c
        f = np.atleast_1d(np.array(fw, dtype=float))
        n = len(f)
        p = [.5, 1.][:n] if pix == 'each' else pix
        s = [3., 4.][:n] if side == 'each' else side
        kw = {} if norm == 'area' else {'norm': norm}
        if s is not None:
            kw['side_length'] = s
        if ex != 1:
            kw['exp'] = ex
        g = self.g.SpectralPSF(np.array(spec), 2., fw, p, axunits=['rad'] * n + ['GHz'], **kw)
        ctx.step()
        pv = np.broadcast_to(np.array(p, dtype=float), (n,))
        nu = sorted(spec)
        ctx.expect(np.allclose(g.axes_centers[-1], nu), 'spec-axis', lambda: 'spectral axis {} expected {}'.format(g.axes_centers[-1], nu))
        npx = [int(k) for k in g.n_pixels]
        ctx.expect(len(npx) == n + 1 and npx[-1] == len(nu) and g.grid.shape == tuple(npx) + (1,), 'spec-shape', 'shape {}'.format(g.grid.shape))
        if s is not None:
            sv = np.broadcast_to(np.array(s, dtype=float), (n,))
            ctx.expect(npx[:-1] == [int(math.ceil(round(x / y, 6))) for x, y in zip(sv, pv)], 'spec-side', 'side length not respected: {}'.format(npx))
        want = np.ones(npx)
        for j, v in enumerate(nu):
            for i in range(n):
                x = (np.arange(npx[i]) - (npx[i] - 1) / 2) * pv[i]
                shp = [1] * n
                shp[i] = -1
                want[..., j] *= (0.5 ** ((2 * x / (f[i] * (2. / v) ** ex)) ** 2)).reshape(shp)
            if norm == 'area':
                want[..., j] /= want[..., j].sum()
        d0 = nu[1] - nu[0]
        m = Model([Dim(-a * b / 2, a, b, 'rad') for a, b in zip(npx[:-1], pv)] + [Dim(nu[0] - d0 / 2, len(nu), d0, 'GHz')], want[..., None], [None])
        d = gm.diff(g, m)
        ctx.expect(d is None, 'spec-psf', lambda: 'SpectralPSF {}: {} is {} expected {}'.format(c, *d))
        # each plane is smoothed by its own kernel
        t = self.g.Grid(1, [0.] * n + [sum(nu) / len(nu)], [5.] * n + [d0 * len(nu)], [1.] * n + [d0])
        t.init_grid()
        t.grid[...] = (np.arange(t.grid.size) % 4.).reshape(t.grid.shape)
        a = np.array(t.grid)
        if np.allclose(np.diff(nu), d0):
            t.convolve(g, ax=list(range(n)))
            w = conv(a, want[..., None], list(range(n)))
            ctx.expect(np.allclose(t.grid, w, atol=1e-9 * np.abs(a).max() * max(1, want.sum())), 'spec-conv', 'planes are not smoothed by their own kernel')
            ctx.step()
        ctx.interesting()


CHECK = C()
