"""C12  Grid geometry: every sequence of grid operations keeps axes, data, units and Fourier state consistent."""
import os, shutil
import numpy as np
from . import core, gridmodel as gm
from .core import Check
from .gridmodel import Dim, Model


class C(Check):
    id = 'C12'
    technique = 'explicit-state BFS over grid operation histories (pad, crop, scale, down-sample, collapse, transform, copy, sum, add, save/load) on real Grid objects vs. a reference grid'
    rule = 'one case = one operation history from one start grid; non-trivial if at least two operations change the grid'
    assumptions = ('each operation names each axis at most once',)
    needs_root = False
    chunk = 40

    def setup(self):
        from simim.map import gridder
        self.g = gridder

    # ---- start grids
    def start(self, kind):
        G = self.g
        if kind == '2d':
            g = G.Grid(2, (1., -2.), (2., 3.), (.5, 1.), axunits=('Mpc', 'GHz'), gridunits=('K', 'Jy'))
            m = Model([Dim(0, 4, .5, 'Mpc'), Dim(-3.5, 3, 1., 'GHz')], None, ['K', 'Jy'])
        elif kind == '3d':
            g = G.Grid(1, (0, 4, 1), (4, 3, 4), (2, 1, 2), axunits='Mpc', gridunits='K')
            m = Model([Dim(-2, 2, 2, 'Mpc'), Dim(2.5, 3, 1, 'Mpc'), Dim(-1, 2, 2, 'Mpc')], None, ['K'])
        elif kind == '1d':
            g = G.GridFromAxes(np.arange(6) * .25 + 2, n_properties=3)
            m = Model([Dim(2, 5, .25)], None, [None] * 3)
        else:
            g = G.Grid(2, 3, 4, 4, gridunits='K')
            m = Model([Dim(1, 1, 4)], None, ['K', 'K'])
        g.init_grid()
        shape = [d.n for d in m.dims] + [len(m.units)]
        m.data = 1. + np.arange(np.prod(shape)).reshape(shape) * (1 + np.arange(shape[-1])) ** 2
        g.grid[...] = m.data
        return g, m

    # ---- alphabet
    def ops(self, m):
        nd = len(m.dims)
        out = []
        for a in range(nd):
            out += [['pad', a, 1, 0], ['pad', a, -1, 0], ['ft', [a]], ['down', a, 2, 'average'], ['scale', a, 2., 'same', True]]
            for c in ('lo', 'hi', 'both', 'one', 'none', 'all'):
                out.append(['crop', a, c])
        out += [['down', 0, 3, 'sum'], ['scale', 0, .5, 'kiloparsec', False], ['pad', 0, 2, 7.], ['copy', None], ['copy', [0]],
                ['copyaxes'], ['sum', True], ['sum', False], ['addprop', 0], ['addprop', 1], ['addprop', 2], ['saveload'], ['badpad']]
        for mode in ('sum', 'average'):
            for w in (0, 1, 2):
                out.append(['collapse', [nd - 1], True, w, mode])
        if len(m.units) > 1:
            out += [['copy', [len(m.units) - 1]], ['copy', [1, 0]], ['sumof', [1]]]
        if nd > 1:
            out += [['pad', [0, 1], [1, 2], 0], ['pad', [1, 0], [-1, 1], 0], ['pad', [1, 0], [1, 0], 3.], ['ft', [0, 1]], ['ft', None],
                    ['scale', [1, 0], [3., .5], ['p', 'quarter'], True], ['scale', [1], [2.], None, True], ['down', [1, 0], [1, 2], 'sum'],
                    ['collapse', [0], False, 1, 'average'], ['collapse', [0, 1], False, 1, 'average'], ['collapse', [1, 0], True, 0, 'sum']]
        if nd > 2:
            out += [['collapse', [0, 2], True, 1, 'sum'], ['collapse', [0, 2], True, 3, 'average'], ['collapse', [2, 1], False, 1, 'average'], ['pad', [2, 0], [2, 1], 0]]
        return out

    def explore(self, tier, x):
        deep = tier == 'thorough'
        self_depth = {'2d': 4 if deep else 3, '3d': 3 if deep else 2, '1d': 4 if deep else 3, '1x': 3 if deep else 2}
        for kind, depth in self_depth.items():
            x.bfs(lambda h: {'start': kind, 'h': h}, [], depth, tag=kind)

    def run(self, case, ctx):
        g, m = self.start(case['start'])
        self.tmp = core.fresh_dir(ctx.scratch)
        try:
            originals = []
            self.check(g, m, 'start', ctx)
            for i, op in enumerate(case['h']):
                before = gm.snap(g)
                want = m.copy()
                ok = self.model_op(want, op)
                try:
                    g2, orig = self.real_op(g, op, m)
                    raised = None
                except Exception as e:
                    raised = e
                ctx.step()
                if not ok:
                    ctx.expect(raised is not None, 'not-refused:' + op[0], 'operation {} should have been refused'.format(op))
                    ctx.expect(gm.snap(g) == before, 'refused-changed:' + op[0], 'refused operation {} changed the grid'.format(op))
                    continue
                if raised is not None:
                    raise raised
                m = want
                m.scale = max(m.scale, float(np.max(np.abs(m.data), initial=0.)))
                if orig is not None:
                    originals.append((orig, before, op))
                g = g2
                self.check(g, m, op, ctx)
                if i > 0:
                    ctx.interesting()
            for o, b, op in originals:
                ctx.expect(gm.snap(o) == b, 'original-changed:' + op[0], 'grid from which {} made a new grid was changed later'.format(op))
            ctx.end = ctx.state((case['start'], [(round(d.lo, 6), d.n, round(d.pix, 6), d.unit, d.fourier) for d in m.dims], m.units,
                                 np.round(m.data, 6).tolist(), bool(case['h'] and case['h'][-1][0] in ('copy', 'saveload', 'sum'))))
            ctx.enabled = self.ops(m) if m.data.size < 400 and len(m.dims) else []
        finally:
            shutil.rmtree(self.tmp)

    def check(self, g, m, op, ctx):
        d = gm.diff(g, m)
        ctx.expect(d is None, 'grid:' + (op if isinstance(op, str) else op[0]) + ':' + (d[0] if d else '').split('[')[0],
                   lambda: 'after {}: {} is {}, expected {}'.format(op, *d))

    # ---- crop limits, from the model
    def limits(self, m, op):
        d = m.dims[op[1]]
        c, p = d.centers, d.pix
        exact = all(float(v * 64).is_integer() for v in c)
        e = 0. if exact else p / 10
        n = d.n
        return {'lo': (c[min(1, n - 1)] - e, None), 'hi': (None, c[max(n - 2, 0)] + e), 'both': (c[min(1, n - 1)] - p / 4, c[max(n - 2, min(1, n - 1))] + p / 4),
                'one': (c[n - 1] - p / 4, c[n - 1] + p), 'none': (c[0] + p / 4, c[0] + 3 * p / 4), 'all': (c[0] - p, c[-1] + p)}[op[2]]

    def weights(self, m, op, alias=False):
        axes, w = op[1], op[3]
        if w == 0:
            return None
        out = []
        for a in axes:
            n = m.dims[a].n
            if w == 1:
                out.append(1. + np.arange(n) ** 2 + a)
            elif w == 2:
                out.append(1. + np.arange(np.prod(m.data.shape[:-1])).reshape(m.data.shape[:-1]) % 5)
            else:
                out.append(1. + np.arange(m.data.size).reshape(m.data.shape) % 3 + a)
        return out

    # ---- the model
    def model_op(self, m, op):
        k = op[0]
        if k == 'badpad':
            return False
        if k == 'pad':
            axes = op[1] if isinstance(op[1], list) else [op[1]]
            pads = op[2] if isinstance(op[2], list) else [op[2]]
            if any(p < 0 and m.dims[a].n <= -2 * p for a, p in zip(axes, pads)):
                return False
            for a, p in zip(axes, pads):
                d = m.dims[a]
                if p > 0:
                    w = [(0, 0)] * m.data.ndim
                    w[a] = (p, p)
                    m.data = np.pad(m.data, w, constant_values=op[3])
                elif p < 0:
                    m.data = np.take(m.data, np.arange(-p, d.n + p), axis=a)
                c, side = d.center, d.side
                d.n += 2 * p
                if d.fourier:
                    d.pix = side / d.n
                d.lo = c - d.n * d.pix / 2
        elif k == 'crop':
            d = m.dims[op[1]]
            if d.fourier:
                return False
            lo, hi = self.limits(m, op)
            keep = [i for i, c in enumerate(d.centers) if (lo is None or c >= lo) and (hi is None or c <= hi)]
            if not keep:
                return False
            m.data = np.take(m.data, keep, axis=op[1])
            d.lo += keep[0] * d.pix
            d.n = len(keep)
        elif k == 'ft':
            m.fourier(range(len(m.dims)) if op[1] is None else op[1])
        elif k == 'down':
            axes = op[1] if isinstance(op[1], list) else [op[1]]
            fs = op[2] if isinstance(op[2], list) else [op[2]]
            if any(m.dims[a].fourier or f > m.dims[a].n for a, f in zip(axes, fs)):
                return False
            for a, f in zip(axes, fs):
                d = m.dims[a]
                n = d.n // f
                m.data = sum(np.take(m.data, np.arange(n) * f + j, axis=a) for j in range(f)) / (f if op[3] == 'average' else 1)
                d.n, d.pix = n, d.pix * f
        elif k == 'scale':
            axes = op[1] if isinstance(op[1], list) else [op[1]]
            fs = op[2] if isinstance(op[2], list) else [op[2]]
            us = op[3] if isinstance(op[3], list) else [op[3]] * len(axes)
            for a, f, u in zip(axes, fs, us):
                d = m.dims[a]
                c = d.center * (f if op[4] else 1)
                d.pix *= f
                d.lo = c - d.side / 2
                if u != 'same':
                    d.unit = u
        elif k == 'collapse':
            w = np.ones(m.data.shape)
            for a, wi in zip(op[1], self.weights(m, op) or [np.ones(m.dims[a].n) for a in op[1]]):
                if wi.ndim == 1 and len(m.dims) + 1 != 1 and op[3] in (0, 1):
                    s = [1] * m.data.ndim
                    s[a] = -1
                    wi = wi.reshape(s)
                elif wi.ndim == m.data.ndim - 1:
                    wi = wi[..., None]
                w = w * wi
            r = np.sum(m.data * w, axis=tuple(op[1]))
            m.data = r / np.sum(w, axis=tuple(op[1])) if op[4] == 'average' else r
            m.dims = [d for i, d in enumerate(m.dims) if i not in op[1]]
        elif k == 'copy' and op[1] is not None:
            m.data = m.data[..., op[1]]
            m.units = [m.units[i] for i in op[1]]
        elif k in ('sum', 'sumof'):
            idx = op[1] if k == 'sumof' else range(len(m.units))
            s = m.data[..., list(idx)].sum(axis=-1, keepdims=True)
            us = {m.units[i] for i in idx}
            u = us.pop() if len(us) == 1 else None
            if k == 'sumof' or op[1]:
                m.data, m.units = np.concatenate((m.data, s), axis=-1), m.units + [u]
            else:
                m.data, m.units = s, [u]
        elif k == 'addprop':
            if op[1] == 2:
                return False
            v = self.newval(m) if op[1] else np.zeros(m.data.shape[:-1] + (1,))
            m.data, m.units = np.concatenate((m.data, v), axis=-1), m.units + [None]
        return True

    def newval(self, m):
        return 100. + np.arange(np.prod(m.data.shape[:-1])).reshape(m.data.shape[:-1] + (1,))

    # ---- the real thing
    def real_op(self, g, op, m):
        k = op[0]
        if k == 'badpad':
            g.pad(list(range(len(m.dims))) + [len(m.dims)], 1)
        elif k == 'pad':
            g.pad(tuple(op[1]) if isinstance(op[1], list) else op[1], op[2], op[3])
        elif k == 'crop':
            lo, hi = self.limits(m, op)
            g.crop(op[1], lo, hi)
        elif k == 'ft':
            g.fourier_transform(op[1])
        elif k == 'down':
            g.down_sample(op[1], op[2], op[3])
        elif k == 'scale':
            g.scale_axis(op[1], op[2], axunits=op[3], scalecenter=op[4])
        elif k == 'collapse':
            w = self.weights(m, op)
            ref = None if w is None else [v.copy() for v in w]
            if w is not None and len(op[1]) == 1:
                w = w[0]
            r = g.collapse_dimension(op[1] if len(op[1]) > 1 else op[1][0], in_place=op[2], weights=w, mode=op[4])
            if ref is not None:
                now = w if isinstance(w, list) else [w]
                assert all(a.shape == b.shape and (a == b).all() for a, b in zip(now, ref)), 'the weights passed in were modified'
            if not op[2]:
                return r, g
        elif k == 'copy':
            return g.copy(op[1]), g
        elif k == 'copyaxes':
            # a blank grid with the same axes (transforms the data's own axes, not the copy's)
            for n in (1, len(m.units), len(m.units) + 1):
                c = g.copy_axes(n)
                blank = Model([Dim(d.lo, d.n, d.pix, d.unit) for d in m.dims], None, [None] * n)
                blank.units = [gm.unit(u) for u in c.gridunits]
                d = gm.diff(c, blank)
                assert d is None, 'copy_axes({}): {}'.format(n, d)
                assert not c.grid_active
                if n == len(m.units):
                    assert blank.units == m.units, 'copy_axes lost the units'
        elif k == 'sum':
            r = g.sum_properties(in_place=op[1])
            if not op[1]:
                return r, g
        elif k == 'sumof':
            g.sum_properties(op[1])
        elif k == 'addprop':
            if op[1] == 0:
                g.add_new_prop()
            elif op[1] == 1:
                v = self.newval(m)
                g.add_new_prop(v if len(m.units) % 2 else v[..., 0])
                v[...] = -1
            else:
                g.add_new_prop(np.zeros([d.n + 1 for d in m.dims] + [1]))
        elif k == 'saveload':
            p = os.path.join(self.tmp, 'g{}.npz'.format(len(os.listdir(self.tmp))))
            g.save(p)
            return self.g.LoadGrid(p), g
        return g, None


CHECK = C()
