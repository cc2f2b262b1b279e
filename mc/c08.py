"""C08  Little-h consistency: every interface agrees on both unit systems, whatever way they are selected."""
import itertools, os, shutil
import numpy as np
from . import core, fake
from .core import Check

BOX = 8.0
POS = {'pos_x': [.5, 7.75, 2.25, 3.], 'pos_y': [.25, 6., 6., 1.], 'pos_z': [7.5, .5, 4., 4.]}
MASS = [8e12, 4e11, 2e10, 5e5]
EXTRA = {'q': ([1., 2., 3., 5.], ('x', 2.)), 'd': ([10., 20., 30., 40.], ('y', 0.)), 'f': ([1., -1., 4., 2.], ('z', -0.5))}


class C(Check):
    id = 'C08'
    technique = 'exhaustive enumeration of unit-system histories (initial flag x set_in_h_units sequences x per-call override) x every unit-aware interface, real handlers vs. the h-exponent model'
    rule = 'one case = (h, handler kind, history of unit settings, interface); non-trivial if both unit systems are used'
    assumptions = ('convention: value without h = stored value * h**h_dependence',)
    chunk = 4

    def setup(self):
        import h5py
        from simim.siminterface import SimHandler
        from simim.galprops import Prop
        self.h5py, self.SH, self.Prop = h5py, SimHandler, Prop
        self.cache = {}

    def cases(self, tier):
        depth = 3 if tier == 'thorough' else 2
        for h in (0.5, 0.7, 1.0):
            for init in (False, True):
                for kind in ('sim', 'snap'):
                    for flag in (None, False, True):
                        for n in range(depth + 1):
                            for hist in itertools.product((False, True), repeat=n):
                                yield {'h': h, 'init': init, 'kind': kind, 'flag': flag, 'hist': list(hist)}

    def sim(self, h):
        if h not in self.cache:
            p = core.fresh_dir(core.ROOT, 'sim')
            halos = {}
            for idx in (4, 7):
                d = {k: list(v) for k, v in POS.items()}
                d['mass'] = MASS
                for k, (v, _) in EXTRA.items():
                    d[k] = [x + idx for x in v]
                halos[idx] = d
            fake.write_sim(self.h5py, p, [(4, 2.0), (7, 0.5)], halos, box=BOX, h=h, units={k: u for k, (_, u) in EXTRA.items()})
            self.cache[h] = p
        fake.register('TNG100-2', self.cache[h])
        return self.cache[h]

    def run(self, case, ctx):
        h = case['h']
        self.sim(h)
        kw = {} if case['flag'] is None else {'in_h_units': case['flag']}
        sh = self.SH('TNG100-2', init_snaps=case['init'], **kw)
        cur = bool(case['flag'])
        expose = {4: [x + 4 for x in EXTRA['q'][0]], 7: [x + 7 for x in EXTRA['q'][0]]}
        if case['kind'] == 'sim':
            self.sim_iface(ctx, case, sh, cur, h)
            for f in case['hist']:
                sh.set_in_h_units(f)
                cur = f
                self.sim_iface(ctx, case, sh, cur, h)
        else:
            for idx in (4, 7):
                sn = sh.get_snap(idx)
                c = cur
                self.snap_iface(ctx, case, sn, c, h, idx)
                for f in case['hist']:
                    sn.set_in_h_units(f)
                    c = f
                    self.snap_iface(ctx, case, sn, c, h, idx)
        if case['hist'] or case['flag'] is not None:
            ctx.interesting()

    def close(self, a, b, t=1e-5):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=t, atol=0))

    def stored(self, idx):
        out = {k: (list(v), -1.) for k, v in POS.items()}
        out['mass'] = (MASS, -1.)
        for k, (v, (u, e)) in EXTRA.items():
            out[k] = ([x + idx for x in v], e)
        return out

    def sim_iface(self, ctx, case, sh, cur, h):
        w = lambda s: lambda: '{} now in_h={}: {}'.format(case, cur, s())
        ctx.step()
        ctx.expect(self.close(sh.box_edge, BOX if cur else BOX / h), 'box', w(lambda: 'box_edge {}'.format(sh.box_edge)))
        for ov in (None, True, False):
            eff = cur if ov is None else ov
            side = BOX if eff else BOX / h
            for vol in (1., 8., 1000.):
                ctx.expect(self.close(sh.number_volumes(vol, in_h_units=ov), side ** 3 / vol), 'number_volumes',
                           w(lambda: 'number_volumes({},{}) = {} expected {}'.format(vol, ov, sh.number_volumes(vol, in_h_units=ov), side ** 3 / vol)))
            # mass index: nothing at or above the mass may be cut, nothing below the next lower 0.1 dex step kept
            for m in (0., 1e5, 3e5, 4e5, 2.5e6, 1e10, 2.1e10, 3.3e10, 4.1e11, 3e12, 7.9e12, 9e12, 3e13, 1e19):
                mh = m if eff else m * h
                i = int(sh.get_mass_index(m, 4, in_h_units=ov))
                lo = sum(x >= mh * (1 + 1e-6) for x in MASS)
                hi = sum(x >= (10 ** (np.floor(np.log10(mh) * 10 + 1e-6) / 10) * (1 - 1e-6) if mh >= 1e6 else 0) for x in MASS)
                ctx.expect(lo <= i <= hi, 'mass_index', w(lambda: 'get_mass_index({}, in_h={}) = {} expected {}..{} of masses {}'.format(m, ov, i, lo, hi, MASS)))
            # statistics receive values in the selected system
            for name in ('mass', 'q', 'd', 'f'):
                vals, zs = sh.snap_stat(lambda a: list(a), ['a'], kw_remap={'a': name}, give_args_in_h_units=ov)
                for v, idx, z, zw in zip(vals, (4, 7), zs, (2.0, 0.5)):
                    st, e = self.stored(idx)[name]
                    ctx.expect(self.close(v, np.array(st) * (1. if eff else h ** e)) and self.close(z, zw), 'snap_stat',
                               w(lambda: 'snap_stat {} in_h={} snapshot {} = {}'.format(name, ov, idx, v)))
        for idx in (4, 7):
            sn = sh.get_snap(idx)
            for name, (st, e) in self.stored(idx).items():
                got = sn.return_property(name)
                ctx.expect(self.close(got, np.array(st) * (1. if cur else h ** e)), 'get_snap',
                           w(lambda: 'get_snap({}).return_property({}) = {}'.format(idx, name, got)))
            ctx.expect(self.close(sn.box_edge, BOX if cur else BOX / h), 'box', w(lambda: 'snapshot box_edge {}'.format(sn.box_edge)))
        ctx.state((case['h'], cur, case['init']))
        # a range set on all snapshots means the same halos in both systems
        if case['init']:
            for ov in (None, True, False):
                eff = cur if ov is None else ov
                lo, hi = 1e10, 5e11
                sh.set_property_range('mass', lo if eff else lo / h, hi if eff else hi / h, in_h_units=ov)
                for idx in (4, 7):
                    got = sh.get_snap(idx).return_property('mass', in_h_units=True)
                    ctx.expect(self.close(got, [4e11, 2e10]), 'range', w(lambda: 'range (in_h={}) selects {}'.format(ov, got)))
                sh.set_property_range()

    def snap_iface(self, ctx, case, sn, cur, h, idx):
        w = lambda s: lambda: '{} snapshot {} now in_h={}: {}'.format(case, idx, cur, s())
        ctx.step()
        st = self.stored(idx)
        ctx.expect(self.close(sn.box_edge, BOX if cur else BOX / h), 'box', w(lambda: 'box_edge {}'.format(sn.box_edge)))
        for ov in (None, True, False):
            eff = cur if ov is None else ov
            conv = lambda k: np.array(st[k][0]) * (1. if eff else h ** st[k][1])
            for k in st:
                for loaded in (False, True):
                    if loaded:
                        sn.load_property(k)
                    got = sn.return_property(k, in_h_units=ov)
                    ctx.expect(self.close(got, conv(k)), 'return', w(lambda: 'return_property({}, {}) loaded={} = {} expected {}'.format(k, ov, loaded, got, conv(k))))
                sn.unload_property(k)
                got = sn.eval_stat(lambda z: np.array(z), ['z'], kw_remap={'z': k}, give_args_in_h_units=ov)
                ctx.expect(self.close(got, conv(k)), 'eval_stat', w(lambda: 'eval_stat({}, {}) = {} expected {}'.format(k, ov, got, conv(k))))
                for lo, hi in ((st[k][0][1], st[k][0][1]), (min(st[k][0]), sorted(st[k][0])[2])):
                    f = 1. if eff else h ** st[k][1]
                    lo2, hi2 = lo * f, hi * f
                    lo2, hi2 = (lo2 - abs(lo2) * 1e-4, hi2 + abs(hi2) * 1e-4)
                    sn.set_property_range(k, lo2, hi2, in_h_units=ov)
                    want = [x for x in st[k][0] if lo <= x <= hi]
                    got = sn.return_property(k, in_h_units=True)
                    ctx.expect(self.close(got, want), 'range', w(lambda: 'set_property_range({},{},{},in_h={}) keeps {} expected {}'.format(k, lo2, hi2, ov, got, want)))
                    sn.set_property_range()
            for name, v in (('h', h), ('redshift', 2.0 if idx == 4 else .5), ('box_edge_h', BOX), ('box_edge_no_h', BOX / h), ('box_edge', BOX if cur else BOX / h)):
                got = sn.eval_stat(lambda a: a, ['a'], kw_remap={'a': name})
                ctx.expect(self.close(got, v), 'extra', w(lambda: '{} = {} expected {}'.format(name, got, v)))
            # gridding: same cells whichever unit system, values converted
            side = BOX if eff else BOX / h
            g = sn.grid('mass', 'd', in_h_units=ov, res=side / 4)
            want = np.zeros((4, 4, 4, 2))
            for i in range(4):
                c = tuple(int(POS[p][i] // 2) for p in ('pos_x', 'pos_y', 'pos_z'))
                want[c] += [conv('mass')[i], conv('d')[i]]
            ctx.expect(self.close(g.grid, want), 'grid', w(lambda: 'grid in_h={} differs: {} vs {}'.format(ov, g.grid[np.nonzero(g.grid)], want[np.nonzero(want)])))
            lim = (side / 4, side)
            g = sn.grid('d', in_h_units=ov, res=side / 4, xlim=lim, norm='cell_volume')
            ctx.expect(self.close(g.grid, want[1:, :, :, 1:] / (side / 4) ** 3), 'grid', w(lambda: 'limited grid in_h={} differs'.format(ov)))
        # properties: every combination of argument and result conventions describes the same physical quantity
        for give, ret in itertools.product((False, True), repeat=2):
            for e in (-1, 0, 2):
                p = self.Prop('new', lambda mass, q: np.asarray(mass, dtype=float) * q, ['mass', 'q'], give_args_in_h_units=give,
                              function_return_in_h_units=ret, units='u', h_dependence=e)
                sn.make_property(p)
                raw = np.array(MASS) * np.array(st['q'][0]) * (1. if give else h ** -1 * h ** 2.)
                want_h = raw if ret else raw / h ** e
                for ov in (None, True, False):
                    eff = cur if ov is None else ov
                    got = sn.return_property('new', in_h_units=ov)
                    ctx.expect(self.close(got, want_h * (1. if eff else h ** float(e))), 'make_property',
                               w(lambda: 'property give_h={} return_h={} h_dep={} read in_h={}: {}'.format(give, ret, e, ov, got)))
                sn.unload_property('new')
        ctx.state((case['h'], cur, 'snap', idx))


CHECK = C()
