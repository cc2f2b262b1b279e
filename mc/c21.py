"""C21  Light cone analysis: volumes, evolution in redshift bins, gridding and iteration over sets."""
import itertools, os, shutil
import numpy as np
from . import core, fake, lcmodel as lm
from .core import Check

H, BOX = .5, 60.
LC_SNAPS = [(2, .09), (5, .04), (6, 0.)]
SP_SNAPS = [(2, .015), (5, .006), (6, 0.)]
ZLC, ZSP = (.002, .1), (.001, .0095)
A = 4.
# kind: (sim, shape, aspect)
KINDS = {'box1': ('TNG300-1', 'box', 1.), 'box.5': ('TNG300-1', 'box', .5), 'circle': ('TNG300-1', 'circle', 1.), 'circle.5': ('TNG300-1', 'circle', .5),
         'sphere': ('TNG300-2', 'sphere', None), 'hemisphere': ('TNG300-2', 'hemisphere', None), 'quarter': ('TNG300-2', 'quarter', None), 'eighth': ('TNG300-2', 'eighth', None)}
SOLID = {'sphere': 4 * np.pi, 'hemisphere': 2 * np.pi, 'quarter': np.pi, 'eighth': np.pi / 2}
NSET = 3


def stat(**kw):
    return {k: (np.array(v, dtype=float).tolist() if np.ndim(v) else float(v)) for k, v in kw.items()}


class C(Check):
    id = 'C21'
    technique = 'exhaustive enumeration of volume and gridding requests, and explicit-state BFS over histories of selections, unit switches and binned statistics on light cones and sets of light cones, vs. direct computation from the stored rows'
    rule = 'one case = one request or one history; non-trivial if halos are involved'
    assumptions = ('small-angle areas as documented (box: product of sides, circle: pi r^2); whether a binned statistic respects an earlier selection is not judged',)
    chunk = 8

    def setup(self):
        import h5py
        from simim.lightcone import LCMaker, SphereMaker, LCHandler, LCIterator
        from simim.galprops import Prop
        self.h5py, self.LCMaker, self.SphereMaker, self.LCHandler, self.LCIterator, self.Prop = h5py, LCMaker, SphereMaker, LCHandler, LCIterator, Prop
        lm.memoize_cosmology()
        base = os.path.join(core.ROOT, 'sims')
        os.mkdir(base)
        halos = {i: lm.lattice(8, BOX, (.1 * i, .3, .6), [5e11, 2e12, 1e12, 3e11, 1e13]) for i in (2, 5, 6)}
        self.paths = {}
        for sim, snaps in (('TNG300-1', LC_SNAPS), ('TNG300-2', SP_SNAPS)):
            p = os.path.join(base, sim)
            fake.write_sim(h5py, p, snaps, halos, box=BOX, h=H, name=sim)
            fake.register(sim, p)
        self.cosmo = fake.cosmology(H, .3, .05)
        for kind in KINDS:
            self.build(kind, kind)

    def build(self, kind, name, n=NSET, angle=A):
        sim, shape, aspect = KINDS[kind]
        if aspect is None:
            mk = self.SphereMaker(sim, name, redshift_min=ZSP[0], redshift_max=ZSP[1], mode=shape, overwrite=True)
        else:
            mk = self.LCMaker(sim, name, angle, aspect, redshift_min=ZLC[0], redshift_max=ZLC[1], mode=shape, overwrite=True)
        mk.build_lightcones(n, rng=lm.Script([[.5, .25, .125], [.31, .87, .52], [.1, .6, .9]], lm.FLIPS[1:], [[.4, .6, .5], [.62, .5, .7]], [.15, .8]))
        self.paths[name] = mk.lc_path
        self.maker = mk
        return mk

    def zr(self, kind):
        return ZLC if KINDS[kind][2] is not None else ZSP

    def vol_cases(self, deep):
        fr = [None, .3, .5, .71, 1., 1.1]
        asp = [None, .25, .5, .9, 1.] if deep else [None, .25, .5, 1.]
        zz = [(None, None), (.01, None), (.0100, .05), (.001, .05), (.01, .11), (None, .1), (.002, .02)]
        for kind, (sim, shape, aspect) in KINDS.items():
            if aspect is None:
                for z in [(None, None), (.002, None), (.002, .005), (.0005, .005), (.002, .0099), (None, .0095)]:
                    for hu in (None, True, False):
                        for dh in (True, False):
                            yield {'k': 'vol', 'kind': kind, 'shape': None, 'a': None, 'r': None, 'z': z, 'h': hu, 'dh': dh}
                continue
            for sh in (None, 'box', 'circle'):
                for a in fr:
                    for r in asp:
                        for z in (zz if deep or (a in (None, .5) and r in (None, .5)) else zz[2:3]):
                            for hu, dh in (((None, True), (False, True), (True, False), (None, False)) if a is None and r is None else ((None, True),)):
                                yield {'k': 'vol', 'kind': kind, 'shape': sh, 'a': a, 'r': r, 'z': z, 'h': hu, 'dh': dh}

    def explore(self, tier, x):
        deep = tier == 'thorough'
        x.all(self.vol_cases(deep))
        grids = []
        for kind in ('box1', 'box.5', 'circle'):
            for prop in (('mass',), ('mass', 'redshift'), ('pos_x',)):
                for rf in (None, 115.27):
                    for hu in (None, True, False):
                        for lim in (0, 1, 2):
                            for res in (None, 1, 2):
                                for norm in (None, 2.5):
                                    if deep or norm is None or res == 1:
                                        grids.append({'k': 'grid', 'kind': kind, 'prop': prop, 'rf': rf, 'h': hu, 'lim': lim, 'res': res, 'norm': norm})
        x.all(grids)
        bins = [['all', 3], ['all', 1], ['halo', 4], ['rev', 3], ['part', 2], ['out', 2]]
        ops = [['evo', b, f] for b in bins for f in ((0, 0, 0), (1, 1, 1), (0, 0, 1), (1, 0, 0))]
        if not deep:
            ops = [o for o in ops if o[1][0] in ('all', 'halo', 'out') or o[2] == (1, 1, 1)]
        ops += [['sel', 'mass', 1.5e12], ['sel', 'redshift', .005], ['all'], ['h', 1], ['h', 0]]
        for kind in ('box1', 'circle.5', 'sphere', 'eighth'):
            x.bfs(lambda h: {'k': 'evo', 'kind': kind, 'h': h}, ops, 3 if deep else 2, tag='evo_' + kind)
        its = []
        for kind in KINDS:
            for nums in (None, [0], [2, 0], [1]):
                for hu in (0, 1):
                    for other in ((None, 'circle', 'box.5', 'angle') if kind == 'box1' else (None,)):
                        for req in (0, 1):
                            its.append({'k': 'iter', 'kind': kind, 'nums': nums, 'h': hu, 'mix': other, 'req': req})
        x.all(its)

    def run(self, case, ctx):
        getattr(self, 'do_' + case['k'])(case, ctx)

    # ---- volume
    def do_vol(self, case, ctx):
        kind = case['kind']
        sim, shape, aspect = KINDS[kind]
        lc = self.LCHandler(sim, kind, 0, in_h_units=case['dh'])
        rad = np.radians(A)
        lo, hi = self.zr(kind)
        z = case['z']
        ok, doubt = True, False
        z0, z1 = lo if z[0] is None else z[0], hi if z[1] is None else z[1]
        if z0 < lo or z1 > hi:
            ok = False
        sh = case['shape'] or shape
        if aspect is None:
            area = SOLID[shape]
        else:
            a = rad if case['a'] is None else case['a'] * rad
            r = aspect if case['r'] is None else case['r']
            eps = 1e-9
            if sh == 'box':
                area = a * a * r
                fit = (a <= rad + eps and a * r <= rad * aspect + eps) if shape == 'box' else np.hypot(a, a * r) <= rad + eps
            else:
                area = np.pi * a * a / 4
                fit = a <= (rad * aspect if shape == 'box' else rad) + eps
                # the aspect ratio plays no role for circles, but may be rejected when given explicitly
                doubt = case['r'] is not None
            ok = ok and fit
            if shape == 'circle' and aspect != 1 and sh == 'box' and case['r'] is None:
                doubt = True
        ctx.step()
        kw = {k: v for k, v in dict(redshift_min=z[0], redshift_max=z[1], shape=case['shape'], open_angle=None if case['a'] is None else case['a'] * rad,
                                    aspect_ratio=case['r'], in_h_units=case['h']).items() if v is not None}
        try:
            got = float(lc.volume(**kw))
        except ValueError:
            got = None
        ctx.state((case['kind'], sh, None if got is None else round(got, 3)))
        if got is None:
            ctx.expect(not ok or doubt, 'refused', lambda: '{}: a volume inside the light cone was refused'.format(case))
            return
        ctx.interesting()
        ctx.expect(ok, 'outside', lambda: '{}: the volume {} is not inside the light cone'.format(case, got))
        D = [self.cosmo.comoving_distance(v).value for v in (z0, z1)]
        want = area / 3 * (D[1] ** 3 - D[0] ** 3)
        if case['h'] if case['h'] is not None else case['dh']:
            want *= H ** 3
        ctx.expect(abs(got / want - 1) < 1e-6, 'volume', lambda: '{}: volume {} expected {}'.format(case, got, want))

    # ---- stored rows
    def rows(self, sim, name, number):
        with self.h5py.File(os.path.join(self.paths[name], 'lc_{:04d}.hdf5'.format(number)), 'r') as f:
            return {k: f['Lightcone Full'][k][:] for k in f['Lightcone Full']}, {k: int(f['Lightcone Full'][k].attrs['h dependence']) for k in f['Lightcone Full']}

    # ---- grid
    def do_grid(self, case, ctx):
        sim, shape, aspect = KINDS[case['kind']]
        lc = self.LCHandler(sim, case['kind'], 1, in_h_units=True)
        r, dep = self.rows(sim, case['kind'], 1)
        n = len(r['mass'])
        ctx.step(n)
        zlo, zhi = ZLC
        rad = np.radians(A)
        if case['rf']:
            f = case['rf'] / (1 + r['redshift'])
            zl = (case['rf'] / (1 + zhi), case['rf'] / (1 + zlo))
        else:
            f, zl = r['redshift'], (zlo, zhi)
        kw = {}
        lims = [(-rad / 2, rad / 2), (-rad * aspect / 2, rad * aspect / 2), zl]
        if case['lim']:
            c = [.013, .004, zl[0] + (zl[1] - zl[0]) * .4]
            lims = [(-.5 * rad, c[0]), (-.2 * rad * aspect, .31 * rad * aspect), (c[2], zl[1])]
            kw = {'ralim': lims[0], 'declim': lims[1], 'zlim': lims[2]}
            if case['lim'] == 2:
                kw = {'zlim': lims[2]}
                lims = [(-rad / 2, rad / 2), (-rad * aspect / 2, rad * aspect / 2), lims[2]]
        L = [b - a for a, b in lims]
        if case['res'] == 1:
            kw['res'] = [L[0] / 5, L[1] / 3, L[2] / 7]
        elif case['res'] == 2:
            kw['res'] = [L[0] / 4.5, L[1] / 3.2, L[2] / 6.7]
        size = kw.get('res') or [v / 100 for v in L]
        if case['norm']:
            kw['norm'] = case['norm']
        g = lc.grid(*case['prop'], restfreq=case['rf'], in_h_units=case['h'], **kw)
        edges = [np.asarray(a) for a in g.axes]
        for i in range(3):
            ctx.expect(np.allclose(np.diff(edges[i]), size[i], rtol=1e-6) and edges[i][0] <= lims[i][0] + 1e-6 * L[i] and edges[i][-1] >= lims[i][1] - 1e-6 * L[i]
                       and L[i] - 1e-6 * L[i] <= edges[i][-1] - edges[i][0] < L[i] + 1.001 * size[i],
                       'axes', lambda: '{}: axis {} covers {}..{} in steps of {}, expected {} in steps of {}'.format(case, i, edges[i][0], edges[i][-1], np.diff(edges[i])[:1], lims[i], size[i]))
        hu = True if case['h'] is None else case['h']
        grid = g.grid if g.grid.ndim == 4 else g.grid[..., None]
        ctx.expect(grid.shape[3] == len(case['prop']), 'properties', lambda: '{}: {} properties in the grid'.format(case, grid.shape))
        for j, p in enumerate(case['prop']):
            v = r[p].astype(float) * (1 if hu else H ** dep[p])
            want = np.histogramdd(np.stack([r['ra'], r['dec'], f], axis=1), bins=edges, weights=v)[0] * (case['norm'] or 1)
            scale = np.abs(v).max() * (case['norm'] or 1)
            near = np.zeros(want.shape, bool)
            bad = np.abs(grid[..., j] - want) > 1e-5 * scale
            ctx.expect(not bad.any(), 'cells', lambda: '{}: {} cells of {} differ, sum {} expected {}'.format(case, bad.sum(), p, grid[..., j].sum(), want.sum()))
        ctx.interesting()
        ctx.state((case['kind'], case['prop'], case['rf'], case['lim'], case['res'], round(float(grid.sum()), 3)))

    # ---- evolution
    def do_evo(self, case, ctx):
        kind = case['kind']
        sim, shape, aspect = KINDS[kind]
        lc = self.LCHandler(sim, kind, 0)
        r, dep = self.rows(sim, kind, 0)
        z, m = r['redshift'], r['mass'].astype(float)
        lo, hi = self.zr(kind)
        sel = np.arange(len(z))
        hu = False
        solid = SOLID[shape] if aspect is None else (np.radians(A) ** 2 * (aspect if shape == 'box' else np.pi / 4))
        other, remap, kwargs = {'extra': 3.}, {'m': 'mass'}, ['m']
        for op in case['h']:
            ctx.step()
            if op[0] == 'sel':
                cut = op[2] if op[1] == 'mass' else lo + (hi - lo) * .5
                lc.set_property_range(op[1], pmin=cut, reset=False)
                v = m * (1 if hu else H ** dep['mass']) if op[1] == 'mass' else z
                sel = sel[v[sel] >= cut]
            elif op[0] == 'all':
                lc.set_property_range()
                sel = np.arange(len(z))
            elif op[0] == 'h':
                lc.set_in_h_units(bool(op[1]))
                hu = bool(op[1])
            else:
                (how, nb), flags = op[1], op[2]
                if how == 'halo':        # bin edges exactly at halos
                    b = [z[int(q * (len(z) - 1))] for q in np.linspace(0, 1, nb + 1)]
                else:
                    a, c = {'all': (lo, hi), 'rev': (lo, hi), 'part': (lo + (hi - lo) * .2, lo + (hi - lo) * .7), 'out': (lo, hi * 1.3)}[how]
                    b = list(np.linspace(a, c, nb + 1))
                bins = np.array(b[::-1]) if how == 'rev' else b
                before = list(bins)
                call = lambda: lc.eval_stat_evo(bins, stat, kwargs, kw_remap=remap, other_kws=other, zmin_kw=bool(flags[0]), zmax_kw=bool(flags[1]), volume_kw=bool(flags[2]))
                if how == 'out' and flags[2]:
                    try:
                        call()
                        ctx.expect(False, 'outside', '{}: a volume beyond the light cone was returned'.format(case))
                    except ValueError:
                        pass
                else:
                    gb, vals = call()
                    ctx.interesting()
                    ctx.expect(np.allclose(np.asarray(gb), b, rtol=0, atol=0) and len(vals) == nb, 'bins', lambda: '{}: bins {} values {}'.format(case, gb, len(vals)))
                    for i in range(nb):
                        inn = (z >= b[i]) & ((z < b[i + 1]) | ((i == nb - 1) & (z == b[i + 1])))
                        want = np.sort(m[inn] * (1 if hu else H ** dep['mass']))
                        v = vals[i]
                        keys = {'m', 'extra'} | {k for k, fl in zip(('zmin', 'zmax', 'volume'), flags) if fl}
                        ctx.expect(set(v) == keys and v['extra'] == 3., 'keywords', lambda: '{}: bin {} was given {} expected {}'.format(case, i, sorted(v), sorted(keys)))
                        if len(sel) == len(z):
                            ctx.expect(len(v['m']) == len(want) and np.allclose(np.sort(v['m']), want, rtol=1e-6), 'members',
                                       lambda: '{}: bin {} ({}..{}) got {} halos expected {}'.format(case, i, b[i], b[i + 1], len(v['m']), len(want)))
                        if flags[0]:
                            ctx.expect(v['zmin'] == b[i], 'zmin', lambda: '{}: bin {} zmin {}'.format(case, i, v['zmin']))
                        if flags[1]:
                            ctx.expect(v['zmax'] == b[i + 1], 'zmax', lambda: '{}: bin {} zmax {}'.format(case, i, v['zmax']))
                        if flags[2]:
                            D = [self.cosmo.comoving_distance(q).value for q in (b[i], b[i + 1])]
                            vol = solid / 3 * (D[1] ** 3 - D[0] ** 3) * (H ** 3 if hu else 1)
                            ctx.expect(abs(v['volume'] / vol - 1) < 1e-6, 'volume', lambda: '{}: bin {} volume {} expected {}'.format(case, i, v['volume'], vol))
                ctx.expect(other == {'extra': 3.} and remap == {'m': 'mass'} and kwargs == ['m'] and list(bins) == before, 'arguments', lambda: '{}: the arguments were changed to {} {} {}'.format(case, other, remap, kwargs))
                if not flags[2]:
                    v = lc.eval_stat_evo([lo, hi], stat, kwargs, kw_remap=remap)[1]
                    ctx.expect(set(v[0]) == {'m'}, 'leak', lambda: '{}: a later call without keywords was given {}'.format(case, sorted(v[0])))
            ctx.expect(list(lc.inds_active) == list(sel) and lc.nhalos_active == len(sel), 'selection', lambda: '{}: {} active halos ({}) expected {}'.format(case, len(lc.inds_active), lc.nhalos_active, len(sel)))
            got = lc.return_property('mass')
            ctx.expect(np.allclose(got, m[sel] * (1 if hu else H ** dep['mass']), rtol=1e-6), 'selection', lambda: '{}: masses of the selection'.format(case))
        ctx.end = ctx.state((kind, tuple(sel), hu))

    # ---- iteration
    def do_iter(self, case, ctx):
        kind = case['kind']
        sim, shape, aspect = KINDS[kind]
        name = 'set{}'.format(os.getpid())
        try:
            mk = self.build(kind, name)
            bad = False
            if case['mix']:
                other = 'box1' if case['mix'] == 'angle' else case['mix']
                self.build(other, name, n=1, angle=A / 2 if case['mix'] == 'angle' else A)     # replaces light cone 0
                nums = case['nums'] or [0, 1, 2]
                bad = 0 in nums and len(nums) > 1
            nums = case['nums'] if case['nums'] is not None else [0, 1, 2]
            ctx.step()
            try:
                it = self.LCIterator(sim, name, case['nums'], in_h_units=bool(case['h']), require_consistent=bool(case['req']))
            except ValueError:
                ctx.expect(bad and case['req'], 'refused', lambda: '{}: refused'.format(case))
                ctx.state(('refused', case['mix']))
                return
            ctx.expect(not (bad and case['req']), 'inconsistent', lambda: '{}: inconsistent light cones were accepted'.format(case))
            ctx.interesting()
            hs = {str(i): self.LCHandler(sim, name, i, in_h_units=bool(case['h'])) for i in nums}
            eq = lambda a, b: a.keys() == b.keys() and all(np.array_equal(a[k], b[k]) for k in a)
            each = lambda f: {k: f(h) for k, h in hs.items()}
            def same(tag, a, b):
                ctx.step()
                ctx.expect(eq(a, b), 'iterate', lambda: '{}: {} differs from the individual light cones'.format(case, tag))
            same('return_property', it.return_property('mass'), each(lambda h: h.return_property('mass')))
            it.set_property_range('mass', pmin=1.5e12)
            each(lambda h: h.set_property_range('mass', pmin=1.5e12))
            same('selection', it.return_property('redshift'), each(lambda h: h.return_property('redshift')))
            same('eval_stat', it.eval_stat(np.sum, ['a'], {'a': 'mass'}), each(lambda h: h.eval_stat(np.sum, ['a'], {'a': 'mass'})))
            it.set_property_range()
            each(lambda h: h.set_property_range())
            it.set_in_h_units(True)
            each(lambda h: h.set_in_h_units(True))
            same('units', it.return_property('mass'), each(lambda h: h.return_property('mass')))
            lo, hi = self.zr(kind)
            a = it.eval_stat_evo([lo, (lo + hi) / 2, hi], stat, ['m'], {'m': 'mass'}, volume_kw=True)
            b = each(lambda h: h.eval_stat_evo([lo, (lo + hi) / 2, hi], stat, ['m'], {'m': 'mass'}, volume_kw=True))
            ctx.expect(a.keys() == b.keys() and all(list(a[k][1]) == list(b[k][1]) for k in a), 'iterate', lambda: '{}: eval_stat_evo'.format(case))
            p = self.Prop('twice', lambda mass: 2 * mass, kwargs=['mass'], units='Msun/h', h_dependence=-1)
            it.make_property(p, write_to_disk=True)
            same('make_property', it.return_property('twice'), {k: 2 * v for k, v in each(lambda h: h.return_property('mass')).items()})
            others = [i for i in range(NSET) if i not in nums]
            for i in range(NSET):
                ctx.expect(self.LCHandler(sim, name, i).has_property('twice') == (i in nums), 'written', lambda: '{}: property on the disk of light cone {}'.format(case, i))
            it.delete_property('twice')
            for i in range(NSET):
                ctx.expect(not self.LCHandler(sim, name, i).has_property('twice'), 'deleted', lambda: '{}: property left on the disk of light cone {}'.format(case, i))
            if bad:
                try:
                    it.volume()
                    ctx.expect(False, 'ambiguous', '{}: a volume was returned for inconsistent light cones'.format(case))
                except ValueError:
                    pass
            else:
                ctx.expect(it.volume() == hs[str(nums[0])].volume(), 'iterate', lambda: '{}: volume'.format(case))
            for i in range(NSET):
                try:
                    v = it.volume(number=i)
                    ctx.expect(i in nums and v == hs[str(i)].volume(), 'iterate', lambda: '{}: volume of light cone {}'.format(case, i))
                except ValueError:
                    ctx.expect(i not in nums, 'refused', lambda: '{}: volume of light cone {} refused'.format(case, i))
            ctx.state((kind, tuple(nums), case['mix']))
            if case['nums'] is None and not case['mix']:
                it2 = mk.get_LCIterator()
                same('get_LCIterator', it2.return_property('ra'), each(lambda h: h.return_property('ra')))
        finally:
            shutil.rmtree(self.paths.get(name, '/nonexistent'), ignore_errors=True)


CHECK = C()
