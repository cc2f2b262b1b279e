"""C13  Cataloguing onto a grid: every object lands in exactly the cell that contains it, in exactly the properties asked for."""
import itertools, math
import numpy as np
from . import core, gridmodel as gm
from .core import Check
from .gridmodel import Dim, Model

nan, inf = float('nan'), float('inf')
DIMS = {'2d': [Dim(-.25, 3, .5), Dim(2, 2, 1)], '1d': [Dim(-1, 4, .5)], '3d': [Dim(0, 2, 1), Dim(-.5, 2, .5), Dim(1, 3, 2)]}


def alphabet(d, full):
    a = [d.lo, d.lo + d.pix * 1.25, d.lo + d.pix, d.lo + d.side, d.lo - 2.0 ** -40, d.lo + d.side - 2.0 ** -40]
    return a + [nan, inf, -inf, 1e300] if full else a


def cell(dims, p):
    """Index of the cell containing p, or None; written as a search, not as arithmetic."""
    out = []
    for d, x in zip(dims, p):
        e = d.edges
        k = [i for i in range(d.n) if e[i] <= x < e[i + 1]]
        if not k:
            return None
        out.append(k[0])
    return tuple(out)


class C(Check):
    id = 'C13'
    technique = 'exhaustive enumeration of object lists on/near every cell edge and of histories of add/sample calls over every option, real grids vs. a search-based placement model'
    rule = 'one case = one object list and one or two add calls; non-trivial if some objects fall inside and some outside or two share a cell'
    assumptions = ('cell edges are exactly representable',)
    needs_root = False
    chunk = 40

    def setup(self):
        from simim.map import gridder
        self.g = gridder

    def grid(self, kind, props=2):
        D = DIMS[kind]
        g = self.g.Grid(props, [d.center for d in D], [d.side for d in D], [d.pix for d in D])
        g.init_grid()
        base = np.arange(np.prod([d.n for d in D]) * props, dtype=float).reshape([d.n for d in D] + [props])
        g.grid[...] = base
        m = Model([d.copy() for d in D], base.copy(), [None] * props)
        m.n = 0
        return g, m

    MODES = ['count', 'flat', 'col', 'matrix', 'prop1', 'props10', 'props1m', 'new', 'newflat', 'newcount', 'list']

    def cases(self, tier):
        deep = tier == 'thorough'
        # all single objects
        for kind in DIMS:
            for p in itertools.product(*[range(10)] * len(DIMS[kind])):
                if kind != '3d' or all(i < 6 for i in p) or deep:
                    yield {'kind': kind, 'pos': [list(p)], 'ops': ['matrix', 'new']}
        # all pairs (triples) over the finite alphabet
        for kind, n in (('1d', 3), ('2d', 2)) + ((('2d', 3),) if deep else ()):
            k = 6 if kind == '1d' or n == 2 else 4
            pts = list(itertools.product(range(k), repeat=len(DIMS[kind])))
            for ps in itertools.product(pts, repeat=n):
                yield {'kind': kind, 'pos': [list(p) for p in ps], 'ops': ['props10']}
        # all call histories
        lists = [[], [[1, 1]], [[0, 2], [0, 2], [3, 1]], [[4, 0], [6, 1]], [[1, 1], [2, 1], [0, 5], [1, 0]]]
        for pos in lists:
            for n in (1, 2) + ((3,) if deep else ()):
                for ops in itertools.product(self.MODES, repeat=n):
                    yield {'kind': '2d', 'pos': pos, 'ops': list(ops)}
        # integer / list / float32 positions
        for form in ('int', 'f4', 'list', 'strided'):
            for op in self.MODES:
                yield {'kind': '3d', 'form': form, 'pos': [], 'ops': [op]}
        # spectra
        for kind, nobj, ax, new, loop, cum, careful, arg in itertools.product(('2d', '3d'), (0, 1, 3, 9, 14), (-1, 0, 1, 2), (0, 1, 2, 3), (0, 1), (0, 1), (0, 1), (0, 1, 2)):
            if ax < len(DIMS[kind]) and (not loop or arg):
                yield {'spec': [kind, nobj, ax, new, loop, cum, careful, arg]}
        for kind, nobj, ax, new in itertools.product(('2d', '3d'), (0, 1, 3, 9), (-1, 0, 1, 2, -2), (0, 1, 2, 3)):
            if -len(DIMS[kind]) <= ax < len(DIMS[kind]):
                yield {'arr': [kind, nobj, ax, new]}
        for bad in ('dim', 'len', 'nprop', 'fourier', 'inactive', 'prop', 'arrdim', 'arrlen', 'arrax', 'specax', 'speclen', 'specret', 'specnum', 'sampledim', 'sampleprop'):
            yield {'bad': bad}
        # automatic grids
        for nd, n in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2)):
            vals = [0., .3, 1., 2., 10., 10.03, -.7, 2.9999999] if nd == 1 else [0., .3, 10., 10.03]
            pts = list(itertools.product(range(len(vals)), repeat=nd))
            for ps in itertools.product(pts, repeat=n):
                for pix in ((1, .5, .1, 2, 3) if nd == 1 else (1, .3)):
                    yield {'auto': [[vals[i] for i in p] for p in ps], 'pix': pix, 'vals': len(ps) % 3}
        for side, pix in itertools.product((1, 1.5, 2, 3.04, 10.04, 10.96, .3, .7, 100, 205.), (1, .1, .25, .3, .7, 20.)):
            if pix <= side:
                for c in (0, -1.5):
                    yield {'geom': [side, pix, c]}
        for n in range(1, 40):
            yield {'axes': n}

    # ---------------------------------------------------------------- catalogue
    def run(self, case, ctx):
        for k in ('spec', 'arr', 'bad', 'auto', 'geom', 'axes'):
            if k in case:
                return getattr(self, 'run_' + k)(case, ctx)
        kind = case['kind']
        g, m = self.grid(kind)
        D = DIMS[kind]
        pos = [[alphabet(d, True)[i] for d, i in zip(D, p)] for p in case['pos']]
        form = case.get('form')
        if form:
            pos = [[0, 0, 1], [1, 0, 5], [1, 0, 7], [0, 0, 3], [0, -1, 3]]
        arr = np.array(pos, dtype=float).reshape(len(pos), len(D))
        give = {'int': arr.astype(int) if form == 'int' else None, 'f4': arr.astype('f4'), 'list': pos,
                'strided': np.array(arr, order='F')}.get(form, arr)
        for op in case['ops']:
            ctx.step()
            self.add(g, m, D, pos, give, op, ctx)
        cells = [cell(D, p) for p in pos]
        if len(set(cells)) < len(cells) or None in cells:
            ctx.interesting()
        # sampling
        every = [list(c) for c in itertools.product(*[d.centers for d in D])] + pos
        np_ = m.data.shape[-1]
        for props in (None, 0, [np_ - 1, 0]):
            got = g.sample(every, props)
            idx = list(range(np_)) if props is None else np.atleast_1d(props)
            want = np.array([[nan] * len(idx) if cell(D, p) is None else m.data[cell(D, p)][idx] for p in every])
            ctx.expect(gm.close(got, want), 'sample', lambda: 'sample({}, {}) = {} expected {}'.format(every, props, got.tolist(), want.tolist()))
            ctx.step()
        d = gm.diff(g, m)
        ctx.expect(d is None, 'sample-changed', lambda: 'sample changed the grid: {}'.format(d))
        ctx.state((case, m.data.tolist()))

    def add(self, g, m, D, pos, give, op, ctx):
        n, P = len(pos), m.data.shape[-1]
        kw = {}
        if op == 'count' or op == 'newcount':
            vals, cols = None, [[1.] for _ in pos]
        else:
            w = {'flat': 1, 'newflat': 1, 'col': 1, 'prop1': 1, 'matrix': P, 'props10': 2, 'props1m': 1, 'new': 3, 'list': 1}[op]
            cols = [[100. * (i + 1) * (c + 2) ** 2 for c in range(w)] for i in range(n)]
            vals = np.array(cols).reshape(n, w)
            if op in ('flat', 'newflat'):
                vals = vals[:, 0]
            if op == 'list':
                vals = [c[0] for c in cols]
        target = list(range(P))
        if op == 'prop1':
            kw['properties'] = target = [1]
        if op == 'props10':
            kw['properties'] = target = [1, 0]
        if op == 'props1m':
            kw['properties'] = target = [P - 1, 0]
        if op in ('new', 'newflat', 'newcount'):
            kw['new_props'] = True
        w = len(cols[0]) if cols else (3 if op == 'new' else 1)
        if kw.get('new_props'):
            m.data = np.concatenate((m.data, np.zeros(m.data.shape[:-1] + (w,))), axis=-1)
            m.units += [None] * w
            target = list(range(P, P + w))
        for p, c in zip(pos, cols):
            i = cell(D, p)
            if i is None:
                continue
            m.n += 1
            for j, t in enumerate(target):
                m.data[i + (t,)] += c[0] if len(c) == 1 else c[j]
        keep = (np.array(give).copy(), None if vals is None else np.array(vals).copy())
        g.add_from_cat(give, vals, **kw)
        ctx.expect(np.array_equal(np.array(give), keep[0], equal_nan=True) and (vals is None or np.array_equal(np.array(vals), keep[1])), 'input-changed', 'add_from_cat modified its inputs')
        d = gm.diff(g, m)
        ctx.expect(d is None, 'add:' + op, lambda: 'add {} of {}: {} is {} expected {}'.format(op, pos, *d))
        ctx.expect(int(g.n_objects) == m.n, 'n_objects', 'add {} of {}: n_objects {} expected {}'.format(op, pos, g.n_objects, m.n))

    # ---------------------------------------------------------------- spectra
    def objects(self, kind, ax, n):
        D = [d for i, d in enumerate(DIMS[kind]) if i != ax]
        pts = list(itertools.product(*[alphabet(d, False) for d in D]))
        pos = [list(pts[(5 * i + 1) % len(pts)]) for i in range(n)]
        return D, pos

    def place(self, m, D, ax, pos, rows, new):
        if new == 1:
            m.data = np.concatenate((m.data, np.zeros(m.data.shape[:-1] + (1,))), axis=-1)
            m.units += [None]
            target = [m.data.shape[-1] - 1]
        else:
            target = {0: range(m.data.shape[-1]), 2: [1], 3: [1, 0]}[new]
        for p, r in zip(pos, rows):
            i = cell(D, p)
            if i is None:
                continue
            m.n += 1
            for t in target:
                m.data[i[:ax] + (slice(None),) + i[ax:] + (t,)] += r

    def run_arr(self, case, ctx):
        kind, n, ax, new = case['arr']
        g, m = self.grid(kind)
        a = ax % len(DIMS[kind])
        D, pos = self.objects(kind, a, n)
        rows = [[10. * (i + 1) ** 2 + j ** 3 for j in range(DIMS[kind][a].n)] for i in range(n)]
        kw = {0: {}, 1: {'new_prop': True}, 2: {'properties': 1}, 3: {'properties': [1, 0]}}[new]
        self.place(m, D, a, pos, rows, new)
        P, R = np.array(pos).reshape(n, len(D)), np.array(rows).reshape(n, DIMS[kind][a].n)
        p0, r0 = P.copy(), R.copy()
        g.add_from_pos_plus_array(P, R, ax=ax, **kw)
        ctx.step()
        ctx.expect((P == p0).all() and (R == r0).all(), 'input-changed', 'add_from_pos_plus_array modified its inputs')
        d = gm.diff(g, m)
        ctx.expect(d is None, 'array', lambda: 'add_from_pos_plus_array {}: {} is {} expected {}'.format(case, *d))
        ctx.expect(int(g.n_objects) == m.n, 'array-n', 'n_objects {} expected {}'.format(g.n_objects, m.n))
        if n > 1:
            ctx.interesting()
        ctx.state(case['arr'])

    def run_spec(self, case, ctx):
        kind, n, ax, new, loop, cum, careful, narg = case['spec']
        g, m = self.grid(kind)
        a = ax % len(DIMS[kind])
        D, pos = self.objects(kind, a, n)
        d = DIMS[kind][a]
        args = np.array([[i + 2., .5 * i * i + 1][:max(narg, 1)] for i in range(n)]).reshape(n, max(narg, 1))

        def value(x, row):
            return sum(c * (k + 1) * x ** (k + 1) for k, c in enumerate(row)) if narg else 3 * x + 1

        def f(axis, params):
            k = len(params)
            if narg == 0:
                assert params.shape[1] == 0, 'arguments appeared from nowhere'
                return np.array([[value(x, ()) for x in axis] for _ in range(k)])
            return np.array([[value(x, row) for x in axis] for row in params]).reshape(k, len(axis))
        if cum:
            rows = [np.diff([value(x, r) for x in d.edges]) for r in args]
        else:
            rows = [[value(x, r) for x in d.centers] for r in args]
        self.place(m, D, a, pos, rows, new)
        kw = {0: {}, 1: {'new_prop': True}, 2: {'properties': 1}, 3: {'properties': [1, 0]}}[new]
        give = None if narg == 0 else (args[:, 0] if narg == 1 else args)
        g.add_from_spec_func(np.array(pos).reshape(n, len(D)), f, give, spec_ax=ax, is_cumulative=bool(cum), eval_as_loop=bool(loop), careful_with_memory=bool(careful), **kw)
        ctx.step()
        dd = gm.diff(g, m)
        ctx.expect(dd is None, 'spec', lambda: 'add_from_spec_func {}: {} is {} expected {}'.format(case, *dd))
        ctx.expect(int(g.n_objects) == m.n, 'spec-n', 'n_objects {} expected {}'.format(g.n_objects, m.n))
        if n > 1:
            ctx.interesting()
        ctx.state(case['spec'])

    # ---------------------------------------------------------------- refusals
    def run_bad(self, case, ctx):
        g, m = self.grid('2d')
        f = lambda ax, p: np.ones((len(p), len(ax)))
        one = np.array([[0., 2.5]])
        calls = {'dim': lambda: g.add_from_cat(np.zeros((2, 3)), np.ones(2)), 'len': lambda: g.add_from_cat(np.zeros((2, 2)), np.ones(3)),
                 'nprop': lambda: g.add_from_cat(one, np.ones((1, 3))), 'fourier': lambda: g.add_from_cat(one, np.ones(1)),
                 'inactive': lambda: g.add_from_cat(one, np.ones(1)), 'prop': lambda: g.add_from_cat(one, np.ones(1), properties=2),
                 'arrdim': lambda: g.add_from_pos_plus_array(one, np.ones((1, 2))), 'arrlen': lambda: g.add_from_pos_plus_array(one[:, :1], np.ones((1, 3))),
                 'arrax': lambda: g.add_from_pos_plus_array(one[:, :1], np.ones((1, 2)), ax=2), 'specax': lambda: g.add_from_spec_func(one[:, :1], f, spec_ax=2),
                 'speclen': lambda: g.add_from_spec_func(one[:, :1], f, np.ones(2)), 'specret': lambda: g.add_from_spec_func(one[:, :1], lambda a, p: np.ones((len(p), len(a) + 1))),
                 'specnum': lambda: g.add_from_spec_func(one[:, :1], lambda a, p: np.ones((len(p) + 1, len(a)))),
                 'sampledim': lambda: g.sample(np.zeros((1, 3))), 'sampleprop': lambda: g.sample(one, 2)}
        if case['bad'] == 'fourier':
            g.fourier_transform(1)
        if case['bad'] == 'inactive':
            g = self.g.Grid(1, (0., 0.), (1., 1.), (1., 1.))
        before = gm.snap(g)
        try:
            calls[case['bad']]()
        except Exception:
            pass
        else:
            ctx.fail('accepted', 'call {} should have been refused'.format(case['bad']))
        ctx.step()
        ctx.expect(gm.snap(g) == before, 'refused-changed', 'refused call {} changed the grid'.format(case['bad']))
        ctx.state(case)

    # ---------------------------------------------------------------- automatic grids
    def run_auto(self, case, ctx):
        pos, pix, v = np.array(case['auto']), case['pix'], case['vals']
        n = len(pos)
        vals = [None, 1. + np.arange(n) * 2, np.array([[1. + i, 10. * i] for i in range(n)])][v]
        g = self.g.Gridder(pos, vals, pixel_size=pix)
        ctx.step()
        full = np.ones((n, 1)) if vals is None else np.array(vals).reshape(n, -1)
        ctx.expect(int(g.n_objects) == n, 'auto-lost', lambda: 'Gridder({}, pixel_size={}) counted {} of {} objects'.format(case['auto'], pix, g.n_objects, n))
        ctx.expect(gm.close(g.grid.reshape(-1, g.grid.shape[-1]).sum(axis=0), full.sum(axis=0)), 'auto-sum', lambda: 'Gridder({}) total {} expected {}'.format(case['auto'], g.grid.sum(), full.sum(axis=0)))
        ctx.expect(np.allclose(g.pixel_size, pix), 'auto-pix', 'pixel size {} instead of {}'.format(g.pixel_size, pix))
        # brute-force placement using the grid's own edges, away from edges
        want = np.zeros(g.grid.shape)
        for p, w in zip(pos, full):
            i = []
            for e, x, s in zip(g.axes, p, g.pixel_size):
                if np.any(np.abs(e - x) < 1e-6 * s):
                    i = None
                    break
                i.append(int(np.sum(e <= x)) - 1)
            if i is None:
                want = None
                break
            want[tuple(i)] += w
        if want is not None:
            ctx.expect(gm.close(g.grid, want), 'auto-place', lambda: 'Gridder({}): {} expected {}'.format(case['auto'], g.grid.tolist(), want.tolist()))
            ctx.interesting()
        # the same objects on an explicitly given grid, and through the function interface
        D = [Dim(-1, 5, 3), Dim(-1, 4, 4)][:pos.shape[1]]
        kw = dict(center_point=[d.center for d in D], side_length=[d.side for d in D], pixel_size=[d.pix for d in D])
        h = self.g.Gridder(pos, vals, **kw)
        data = np.zeros([d.n for d in D] + [full.shape[1]])
        for p, w in zip(pos, full):
            if cell(D, p) is not None:
                data[cell(D, p)] += w
        m = Model(D, data, [None] * full.shape[1])
        d = gm.diff(h, m)
        ctx.expect(d is None, 'given', lambda: 'Gridder({}, {}): {} is {} expected {}'.format(case['auto'], kw, *d))
        arr, axes = self.g.gridder_function(pos, vals, **kw)
        ctx.expect(gm.close(arr, data) and all(gm.close(a, e.edges) for a, e in zip(axes, D)), 'function', 'gridder_function disagrees with Gridder')
        e = self.g.Gridder(np.zeros((0, len(D))), None if vals is None else full[:0], setndims=len(D), **kw)
        m = Model(D, np.zeros_like(data), [None] * full.shape[1])
        d = gm.diff(e, m)
        ctx.expect(d is None, 'empty', lambda: 'Gridder of nothing: {} is {} expected {}'.format(*d))
        ctx.state(case)

    def run_geom(self, case, ctx):
        side, pix, c = case['geom']
        g = self.g.Grid(1, (c, c), (side, 2 * side), (pix, pix))
        ctx.step()
        for i, s in enumerate((side, 2 * side)):
            n = int(g.n_pixels[i])
            ctx.expect(n * pix >= s * (1 - 1e-4) and (n - 1) * pix < s * (1 + 1e-4), 'geom-n', '{} cells of {} for a side of {}'.format(n, pix, s))
            m = Dim(c - n * pix / 2, n, pix)
            ctx.expect(np.allclose(g.axes[i], m.edges, atol=1e-9) and np.allclose(g.axes_centers[i], m.centers, atol=1e-9) and abs(g.side_length[i] - n * pix) < 1e-9,
                       'geom-axes', lambda: 'axes {} expected {}'.format(g.axes[i], m.edges))
        ctx.interesting()
        ctx.state(case)

    def run_axes(self, case, ctx):
        n = case['axes']
        for lo, hi in ((0, 1), (-.3, .4), (1e-3, 7.7), (100, 100.3), (0, 1. / 3)):
            for mk in (0, 1, 2):
                e = np.linspace(lo, hi, n + 1) if mk < 2 else lo + (hi - lo) / n * np.arange(n + 1)
                if mk == 1:
                    e = e.copy() * .1 * 10
                e2 = np.array([0., 2., 4.])
                fn = lambda x, y, k=1: np.add.outer(x * k, y)
                g = self.g.GridFromAxesAndFunction(fn, e, e2, function_kwargs={'k': 3}, axunits=('a', 'b'), gridunits='K')
                ctx.step()
                m = Model([Dim(e[0], n, (e[-1] - e[0]) / n, 'a'), Dim(0, 2, 2, 'b')], None, ['K'])
                m.data = np.add.outer(m.dims[0].centers * 3, m.dims[1].centers)[..., None]
                d = gm.diff(g, m)
                ctx.expect(d is None, 'fromaxes', lambda: 'GridFromAxesAndFunction({} cells {}..{}): {} is {} expected {}'.format(n, lo, hi, *d))
        gi = self.g.GridFromAxesAndFunction(lambda x: np.arange(n), np.arange(n + 1) * 1.)
        s = gi.sample([[-1.], [.5]])
        ctx.expect(np.isnan(s[0, 0]) and s[1, 0] == 0, 'fromaxes-int', 'sampling an integer function')
        for bad in (np.array([0., 1., 3.]),):
            try:
                self.g.GridFromAxes(bad)
            except Exception:
                pass
            else:
                ctx.fail('uneven', 'uneven axes accepted')
        ctx.interesting()
        ctx.state(case)


CHECK = C()
