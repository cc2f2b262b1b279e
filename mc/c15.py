"""C15  Averages in spherical shells: every cell counts once, in its shell, with its weight."""
import itertools, math
import numpy as np
from . import core, gridmodel as gm
from .core import Check

SHAPES = {'1': ((5,), (.5,)), '2': ((4, 3), (1., .5)), '3': ((2, 3, 2), (1., 1., 2.))}


class C(Check):
    id = 'C15'
    technique = 'exhaustive enumeration of grid shapes x space x averaged axes x centres x shell definitions x weights, real spherical averages vs. a cell-by-cell model'
    rule = 'one case = one configuration (all outputs: average, deviation, counts); non-trivial if at least two shells are occupied'
    assumptions = ('cells within rounding of an inner shell edge may be counted on either side',)
    needs_root = False
    chunk = 20

    def setup(self):
        from simim.map import gridder
        self.g = gridder

    def cases(self, tier):
        for kind in SHAPES:
            n = len(SHAPES[kind][0])
            axes = [None] + [list(s) for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
            for space, ax, center, shells, mode, w, props in itertools.product(
                    ('real', 'fourier', 'power', 'back'), axes, (None, 'off', 'corner'), (None, 1, 2, 5, 'u', 'gap', 'narrow'), ('linear', 'log'),
                    (None, 'cells', 'props', 'first', 'half'), (1, 2)):
                if not isinstance(shells, int) and shells is not None and mode == 'log':
                    continue
                if tier == 'quick' and n == 3 and (center == 'corner' or (w == 'first') or shells in (1, 'narrow')):
                    continue
                yield {'c': [kind, space, ax, center, shells, mode, w, props]}

    def run(self, case, ctx):
        kind, space, ax, center, shells, mode, w, props = case['c']
        shape, pix = SHAPES[kind]
        nd = len(shape)
        cp = [1. + i for i in range(nd)]
        g = self.g.Grid(props, cp, [n * p for n, p in zip(shape, pix)], pix)
        g.init_grid()
        data = ((np.arange(g.grid.size) * 7 + 2) % 13 - 4.).reshape(g.grid.shape)
        g.grid = data.copy()
        if space != 'real':
            g.fourier_transform()
        if space == 'back':
            g.fourier_transform()
        if space == 'power':
            g.power_spectrum(in_place=True)
        val = np.array(g.grid) if space in ('fourier',) else np.array(g.grid).real
        four = space in ('fourier', 'power')
        cents = [np.asarray(a) for a in (g.fourier_axes_centers if four else g.axes_centers)]
        kw = {}
        cen = [0.] * nd if four else cp
        if center is not None:
            cen = [c[0] if center == 'corner' else c[0] + .3 * (c[-1] - c[0]) for c in cents]
            kw['center'] = cen
        axs = list(range(nd)) if ax is None else ax
        rad = np.zeros(shape)
        for a in axs:
            s = [1] * nd
            s[a] = -1
            rad = rad + ((cents[a] - cen[a]) ** 2).reshape(s)
        rad = np.sqrt(rad)
        rmax, rmin = rad.max(), rad.min()
        if rmax - rmin < 1e-12:
            return
        rpos = rad[rad > 0].min()
        if shells == 'u':
            kw['shells'] = [-.1 * rmax, .37 * rmax, .61 * rmax, 1.17 * rmax]
        elif shells == 'gap':
            kw['shells'] = np.array([.0123 * rmax, .0124 * rmax, .83 * rmax, 1.5 * rmax, 2 * rmax])
        elif shells == 'narrow':
            kw['shells'] = np.array([.2345 * rmax, .7531 * rmax])
        elif shells is not None:
            kw['shells'] = shells
        weights = np.ones(data.shape)
        if w == 'cells':
            kw['weights'] = .25 + (np.arange(rad.size).reshape(shape) % 5) * .5
            weights = weights * kw['weights'][..., None]
        elif w == 'props':
            kw['weights'] = weights = .5 + np.arange(data.size).reshape(data.shape) % 3 * .3
        elif w == 'first':
            kw['weights'] = .5 + np.arange(shape[0]) * .4
            weights = weights * kw['weights'].reshape([-1] + [1] * nd)
        elif w == 'half':
            kw['weights'] = np.full(shape, .5)
            weights = weights * .5
        given = {k: np.array(v, copy=True) for k, v in kw.items()}
        if mode != 'linear':
            kw['binmode'] = mode
        before = gm.snap(g)
        args = dict(ax=ax if ax is None or len(ax) > 1 else ax[0], **kw)
        axes, avg = g.spherical_average(**args)
        ctx.step()
        edges = np.asarray(axes[0], dtype=float)
        nbin = 10 if shells is None else (shells if isinstance(shells, int) else len(kw['shells']) - 1)
        ctx.expect(edges.shape == (nbin + 1,), 'shells', '{} shells instead of {}'.format(len(edges) - 1, nbin))
        auto = shells is None or isinstance(shells, int)
        if auto:
            lo = rmin if mode == 'linear' else max(rmin, rpos)
            ctx.expect(abs(edges[0] - lo) <= 1e-9 * rmax and edges[-1] >= rmax * (1 - 1e-12) and edges[-1] <= rmax * (1 + 1e-6), 'range', lambda: 'shells {} do not cover radii {}..{}'.format(edges, lo, rmax))
            steps = np.diff(edges) if mode == 'linear' else np.diff(np.log(edges))
            ctx.expect(np.allclose(steps, steps[0]), 'spacing', lambda: 'shells {} are not evenly spaced'.format(edges))
        else:
            ctx.expect(np.allclose(edges, kw['shells']), 'shells', 'given shells were not used')
        keep = [a for a in range(nd) if a not in axs]
        rest = [cents[a] for a in keep]
        ctx.expect(len(axes) == len(keep) + 2 and all(np.allclose(x, y) for x, y in zip(axes[1:-1], rest)) and list(axes[-1]) == list(range(props)), 'axes', 'axes of the average are wrong')
        oshape = tuple([nbin] + [shape[a] for a in keep] + [props])
        ctx.expect(avg.shape == oshape, 'shape', 'average has shape {} expected {}'.format(avg.shape, oshape))
        # cell-by-cell reference
        N, W, W2, S = (np.zeros(oshape, dtype=complex) for _ in range(4))
        where = {}
        fuzzy = set()
        for idx in itertools.product(*[range(n) for n in shape]):
            r = rad[idx]
            near = [i for i in range(1, nbin) if abs(edges[i] - r) < 1e-9 * rmax]
            if near:
                fuzzy |= {near[0] - 1, near[0]}
            b = [i for i in range(nbin) if edges[i] <= r < edges[i + 1]]
            if auto and not b:
                if abs(r - edges[0]) < 1e-9 * rmax and mode == 'linear':
                    b = [0]
                elif abs(r - edges[0]) < 1e-9 * rmax:
                    b = [0]
                elif abs(r - edges[-1]) < 1e-9 * rmax:
                    b = [nbin - 1]
            if not b:
                continue
            for p in range(props):
                o = (b[0],) + tuple(idx[a] for a in keep) + (p,)
                where[idx + (p,)] = o
                N[o] += 1
                W[o] += weights[idx + (p,)]
                W2[o] += weights[idx + (p,)] ** 2
                S[o] += weights[idx + (p,)] * val[idx + (p,)]
        with np.errstate(all='ignore'):
            A = S / W
            V = np.zeros(oshape, dtype=complex)
            for i, o in where.items():
                V[o] += weights[i] * (val[i] - A[o]) ** 2
            B, U = np.sqrt(V / W), np.sqrt(V / (W - W2 / W))
        ok = [i for i in range(nbin) if i not in fuzzy]
        sc = float(np.max(np.abs(val)))

        def same(got, want, key, tol=1e-7):
            got = np.asarray(got)[ok]
            want = want[ok]
            if not np.iscomplexobj(got):
                want = want.real
            bad = ~((np.abs(got - want) <= tol * sc) | (~np.isfinite(want)) & (~np.isfinite(got)) | (got == want))
            ctx.expect(not bad.any(), key, lambda: '{}: got {} expected {} (shells {})'.format(case, got.tolist(), want.tolist(), edges.tolist()))
        same(avg, A, 'average')
        n = g.spherical_average(return_n=True, **args)[2]
        ctx.expect(int(np.sum(n)) == len(where), 'lost', lambda: '{}: {} of {} cells counted'.format(case, int(np.sum(n)), len(where)))
        same(n, N, 'count')
        ctx.step()
        if not np.iscomplexobj(val):
            same(g.spherical_average(return_std=True, **args)[2], B, 'std')
            with np.errstate(all='ignore'):
                got = np.where(N.real > 1, np.asarray(g.spherical_average(return_std=True, biased_std=False, **args)[2]).real, 0)
            same(got, np.where(N.real > 1, U, 0), 'std-unbiased')
            ctx.step(2)
        ctx.expect(gm.snap(g) == before, 'grid-changed', 'averaging changed the grid')
        ctx.expect(all(np.array_equal(np.array(kw[k]), v) for k, v in given.items()), 'input-changed', 'averaging changed its inputs')
        if len({o[0] for o in where.values()}) > 1:
            ctx.interesting()
        ctx.state(case)


CHECK = C()
