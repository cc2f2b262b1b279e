"""C17  Saved grids reload identically, and existing files are only replaced when asked."""
import os, shutil
import numpy as np
from . import core, gridmodel as gm
from .core import Check


class C(Check):
    id = 'C17'
    technique = 'explicit-state BFS over histories of save (path spelling x overwrite x compress) / load / modify on real files vs. a file-content model'
    rule = 'one case = one history; non-trivial if a file is written twice or loaded after being written'
    assumptions = ('one process',)
    needs_root = False
    chunk = 20

    def setup(self):
        from simim.map import gridder
        import pathlib
        self.g, self.P = gridder, pathlib.Path

    def ops(self, deep):
        ops = [['load', 'a'], ['load', 'd e/b.x']]
        for path in ('a', 'a.npz', 'd e/b.x', 'd e/b.x.npz'):
            for over in (0, 1):
                ops.append(['save', path, over, len(path) % 2, 0])
        ops += [['save', 'a', 0, 0, 1], ['save', 'a.npz', 1, 1, 1], ['save', 'missing/c', 1, 0, 0],
                ['mod', 'ft'], ['mod', 'complex'], ['mod', 'pad'], ['mod', 'prop'], ['mod', 'mul'], ['mod', 'power'], ['mod', 'units'], ['mod', 'blank'], ['mod', 'crop']]
        return ops

    def explore(self, tier, x):
        x.bfs(lambda h: {'h': h}, self.ops(tier == 'thorough'), 4 if tier == 'thorough' else 3, tag='save')

    def fresh(self):
        g = self.g.Gridder(np.array([[.5, .5], [1.5, .5], [1.5, 2.]]), np.array([[1., 2.], [3., 5.], [7., 11.]]), center_point=(1, 1.25), side_length=(2, 2.5),
                           pixel_size=(1, .5), axunits=('Mpc', None), gridunits=('K', 'Jansky'))
        return g

    def run(self, case, ctx):
        d = core.fresh_dir(ctx.scratch)
        os.mkdir(os.path.join(d, 'd e'))
        try:
            g = self.fresh()
            files = {}
            kept = []
            for op in case['h']:
                ctx.step()
                before = gm.snap(g)
                if op[0] == 'save':
                    name = op[1] if op[1].endswith('.npz') else op[1] + '.npz'
                    path = os.path.join(d, op[1])
                    exists = name in files
                    refuse = (exists and not op[2]) or 'missing' in name
                    try:
                        g.save(self.P(path) if op[4] else path, **({'compress': True} if op[3] else {}), **({'overwrite': True} if op[2] else {}))
                        ok = True
                    except Exception:
                        ok = False
                    ctx.expect(ok == (not refuse), 'overwrite' if refuse else 'save-failed', 'save {} {} (files {})'.format(op, 'accepted' if ok else 'refused', sorted(files)))
                    if ok:
                        if exists:
                            ctx.interesting()
                        files[name] = before
                    ctx.expect(gm.snap(g) == before, 'changed', 'saving changed the grid')
                elif op[0] == 'load':
                    name = op[1] + '.npz'
                    if name in files:
                        kept.append((g, before))
                        g = self.g.LoadGrid(os.path.join(d, name))
                        ctx.interesting()
                        got = gm.snap(g)
                        ctx.expect(self.same(got, files[name]), 'load', lambda: 'loaded grid differs from the saved one:\n{}\n{}'.format(got, files[name]))
                        self.usable(g, ctx)
                    else:
                        continue
                else:
                    self.modify(g, op[1])
                have = sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)
                ctx.expect(have == sorted(files), 'files', 'files {} expected {}'.format(have, sorted(files)))
                for n, want in files.items():
                    got = gm.snap(self.g.LoadGrid(os.path.join(d, n)))
                    ctx.expect(self.same(got, want), 'content', lambda: 'after {}: file {} holds\n{}\nexpected\n{}'.format(op, n, got, want))
            for o, b in kept:
                ctx.expect(gm.snap(o) == b, 'shared', 'a loaded grid shares data with the one it was saved from')
            ctx.end = ctx.state((gm.snap(g), sorted(files.items())))
        finally:
            shutil.rmtree(d)

    def same(self, a, b):
        # axes are recomputed from centre, side and pixel size: allow rounding there, nowhere else
        for i, (x, y) in enumerate(zip(a, b)):
            if 5 <= i <= 12:
                x, y = [np.concatenate([np.ravel(v) for v in z]) if len(z) else np.zeros(0) for z in (x, y)]
                if x.shape != y.shape or not np.allclose(x, y, rtol=1e-12, atol=1e-12):
                    return False
            elif x != y:
                return False
        return True

    def usable(self, g, ctx):
        h = g.copy()
        if h.grid_active:
            h.add_new_prop()
            h.sum_properties([0, h.n_properties - 1])
            ctx.expect(h.n_properties == h.grid.shape[-1] == len(h.gridunits), 'usable', 'a reloaded grid cannot be extended')

    def modify(self, g, how):
        if how == 'blank':
            g.init_grid()
            g.fourier_space[:] = False
            g.is_power_spectrum = False
            return
        if how == 'ft' and not g.is_power_spectrum:
            g.fourier_transform(1)
        elif how == 'pad':
            g.pad((1, 0), (2, 1), val=3.)
        elif how == 'prop':
            if g.n_properties < 4:
                g.add_new_prop()
        elif how == 'mul':
            g.grid = g.grid * 2.
        elif how == 'complex':
            g.grid = g.grid * (1 + 2j)
        elif how == 'power' and not g.is_power_spectrum:
            g.power_spectrum(in_place=True)
        elif how == 'units':
            g.scale_axis(0, 1000., axunits='kiloparsec')
        elif how == 'crop' and not g.fourier_space[0] and g.n_pixels[0] > 1:
            g.crop(0, max=g.axes_centers[0][-2] + g.pixel_size[0] / 4)


CHECK = C()
