"""C09  Selections are exactly the halos satisfying the requested ranges, and evaluating statistics has no side effects."""
import itertools, os, shutil
import numpy as np
from . import core, fake
from .core import Check

inf, nan = float('inf'), float('nan')
VALS = {'a': [0., 1., 1., 2., nan, inf], 'b': [3., -1., 3., 0., 2., -inf], 'mass': [6e12, 5e12, 4e12, 3e12, 2e12, 1e12]}


class C(Check):
    id = 'C09'
    technique = 'exhaustive enumeration of selection histories (property x range x reset/narrow, incl. NaN/inf values and equal bounds) on the real handlers vs. set semantics'
    rule = 'one case = one selection history; non-trivial if a proper non-empty subset is selected at some point'
    assumptions = ()
    chunk = 8

    def setup(self):
        import h5py
        from simim.siminterface.simhandler import SnapHandler
        from simim.galprops import Prop
        self.h5py, self.Snap, self.Prop = h5py, SnapHandler, Prop
        self.path = core.fresh_dir(core.ROOT, 'sel')
        d = {k: [1.] * 6 for k in ('pos_x', 'pos_y', 'pos_z')}
        d.update(VALS)
        fake.write_sim(h5py, self.path, [(0, 0.5)], {0: d}, h=0.5, units={'a': ('u', 0.), 'b': ('u', -1.)})
        self.file = os.path.join(self.path, 'data.hdf5')
        self.cosmo = fake.cosmology(.5, .3, .05)

    def ops(self, tier):
        rng = [(None, None), (1., 1.), (1., 2.), (0.5, None), (None, 1.), (2., 1.), (-inf, inf), (inf, inf)]
        out = [['reset']]
        for p in ('a', 'b', 'mass'):
            for lo, hi in (rng if p != 'mass' else [(None, None), (3.5e12, None), (2e12, 4e12)]):
                for r in (True, False):
                    out.append(['sel', p, lo, hi, r])
        if tier == 'thorough':
            out += [['sel', 'b', 3., 3., True], ['sel', 'b', 3., 3., False], ['sel', 'b', None, 0., False]]
        return out

    def explore(self, tier, x):
        ops = self.ops(tier)
        x.all({'h': list(h)} for n in range(4 if tier == 'thorough' else 3) for h in itertools.product(ops, repeat=n))
        x.bfs(lambda h: {'h': h}, ops, 4, tag='selections')

    def run(self, case, ctx):
        sn = self.Snap(self.file, 0, .5, self.cosmo, 8., in_h_units=True)
        before = open(self.file, 'rb').read()
        act = list(range(6))
        for op in case['h']:
            ctx.step()
            if op[0] == 'reset':
                sn.set_property_range()
                act = list(range(6))
            else:
                _, p, lo, hi, r = op
                kw = {}
                if lo is not None:
                    kw['pmin'] = lo
                if hi is not None:
                    kw['pmax'] = hi
                if not r:
                    kw['reset'] = False
                sn.set_property_range(p, **kw)
                L, U = (-inf if lo is None else lo), (inf if hi is None else hi)
                sel = [i for i in range(6) if L <= np.float32(VALS[p][i]) <= U]
                act = sel if r else [i for i in act if i in sel]
            if 0 < len(act) < 6:
                ctx.interesting()
        w = lambda s: lambda: '{}: {}'.format(case['h'], s())
        eq = lambda a, b: np.array_equal(np.asarray(a, dtype='f4'), np.asarray(b, dtype='f4'), equal_nan=True)

        def observe(tag):
            ctx.expect([int(i) for i in sn.inds_active] == act and sn.nhalos_active == len(act), 'select',
                       w(lambda: '{} active {} ({}) expected {}'.format(tag, list(sn.inds_active), sn.nhalos_active, act)))
            for p in ('a', 'b', 'mass'):
                ctx.expect(eq(sn.return_property(p), [VALS[p][i] for i in act]), 'values', w(lambda: '{} {}'.format(tag, p)))
                ctx.expect(eq(sn.return_property(p, use_all_inds=True), VALS[p]), 'values', w(lambda: '{} all {}'.format(tag, p)))
        observe('')
        # statistics: right arguments, no side effects
        seen = []

        def stat(x, y, c, k=0):
            seen.append((list(map(float, x)), list(map(float, y)), c, k))
            x[:] = -99.            # a careless function must not reach the stored data
            return k
        remap, other = {'x': 'a', 'y': 'b', 'c': 'redshift'}, {'k': 5}
        for alli in (False, True):
            got = sn.eval_stat(stat, ['x', 'y', 'c'], kw_remap=remap, other_kws=other, use_all_inds=alli)
            inds = range(6) if alli else act
            ctx.expect(got == 5 and eq(seen[-1][0], [VALS['a'][i] for i in inds]) and eq(seen[-1][1], [VALS['b'][i] for i in inds])
                       and seen[-1][2] == .5, 'eval_stat', w(lambda: 'statistic saw {}'.format(seen[-1])))
            ctx.expect(remap == {'x': 'a', 'y': 'b', 'c': 'redshift'} and other == {'k': 5}, 'mutated', w(lambda: 'argument dicts changed {} {}'.format(remap, other)))
        observe('after eval_stat')
        sn.load_property('a')
        sn.eval_stat(stat, ['x', 'y', 'c'], kw_remap=remap, other_kws=other, use_all_inds=True)
        observe('after eval_stat on a loaded property')
        # evaluating a property on the selection assigns those halos and nan elsewhere
        sn.make_property(self.Prop('new', lambda b: b * 2., ['b'], give_args_in_h_units=True, function_return_in_h_units=True))
        ctx.expect(eq(sn.return_property('new', use_all_inds=True), [VALS['b'][i] * 2 if i in act else nan for i in range(6)]), 'make', w(lambda: 'make_property on selection'))
        observe('after make_property')
        ctx.expect(open(self.file, 'rb').read() == before, 'disk', w(lambda: 'the file changed'))
        ctx.end = ctx.state(act)


CHECK = C()
