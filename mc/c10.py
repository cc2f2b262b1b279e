"""C10  Simulation-wide operations do the same thing on every snapshot, and only on user-made properties."""
import os, shutil
import numpy as np
from . import core, fake
from .core import Check

H = .5
IDX = [2, 5, 6]
ZS = [3., 1., 0.]
POS = {2: [1., 3.], 5: [], 6: [2., 3., 1.]}
MASS = {2: [4e11, 1e10], 5: [], 6: [8e12, 4e11, 2e10]}


class C(Check):
    id = 'C10'
    technique = 'explicit-state BFS over simulation-wide operation histories (make/write/overwrite/delete/select/statistics, with and without resident snapshots) vs. a per-snapshot reference'
    rule = 'one case = one history of simulation-wide operations; non-trivial if it writes or deletes a property'
    assumptions = ('snapshots of one simulation share their set of properties',)
    chunk = 4

    def setup(self):
        import h5py
        from simim.siminterface import SimHandler
        from simim.galprops import Prop, MultiProp
        self.h5py, self.SH, self.Prop, self.Multi = h5py, SimHandler, Prop, MultiProp

    def ops(self, deep):
        ops = []
        for name in ('A', 'mass'):
            for over in (0, 1):
                for write in (0, 1):
                    for alli in (0, 1):
                        ops.append(['make', name, over, write, alli])
        ops += [['multi', 0, 1], ['multi', 1, 1], ['rename', 0, 1], ['del', 'A'], ['del', 'mass'], ['del', 'A', 'B'], ['del', 'A', 'mass'],
                ['del', 'B', 'nothing'], ['range', 5e10], ['range', 0.], ['narrow', 1.5, 6.5], ['narrow', 0, 4.5], ['reopen', 0], ['reopen', 1]]
        return ops

    def explore(self, tier, x):
        deep = tier == 'thorough'
        for init in (0, 1):
            x.bfs(lambda h: {'init': init, 'h': h}, self.ops(deep), 4 if deep else 3, tag='init{}'.format(init))

    def run(self, case, ctx):
        base = core.fresh_dir(ctx.scratch)
        try:
            halos = {}
            for i in IDX:
                n = len(MASS[i])
                halos[i] = {'pos_x': POS[i], 'pos_y': [1.] * n, 'pos_z': [1.] * n, 'mass': MASS[i]}
            fake.write_sim(self.h5py, base, list(zip(IDX, ZS)), halos, h=H)
            fake.register('TNG100-3', base)
            init = bool(case['init'])
            sh = self.SH('TNG100-3', init_snaps=init)
            disk = {i: {'mass': ([float(np.float32(m)) for m in MASS[i]], -1., False)} for i in IDX}
            mem = {i: {} for i in IDX}
            act = {i: list(range(len(MASS[i]))) for i in IDX}
            wrote = False
            for op in case['h']:
                ctx.step()
                err = False
                k = op[0]
                if k in ('make', 'multi', 'rename'):
                    if k == 'make':
                        _, name, over, write, alli = op
                        names, facs, deps = [name], [3.], [-1]
                        p = self.Prop(name, lambda mass: mass * 3., ['mass'], units='Msun', h_dependence=-1)
                        rn = None
                    elif k == 'multi':
                        _, over, write = op
                        alli = 1
                        names, facs, deps = ['A', 'B'], [2., 5.], [1, -1]
                        p = self.Multi(['A', 'B'], lambda mass: [mass * 2., mass * 5.], ['mass'], units=['x', 'y'], h_dependence=[1, -1])
                        rn = None
                    else:
                        _, over, write = op
                        alli = 1
                        names, facs, deps = ['B'], [7.], [0]
                        p = self.Prop('zzz', lambda mass: mass * 7., ['mass'], units='x', h_dependence=0)
                        rn = 'B'
                    call = lambda: sh.make_property(p, rename=rn, overwrite=bool(over), use_all_inds=bool(alli), write=bool(write))
                    if not write and not init:
                        err = True
                    elif any(n in disk[2] or n in mem[2] for n in names) and not over:
                        err = True
                    elif write and any(n in disk[2] and not disk[2][n][2] for n in names):
                        err = True
                    else:
                        for i in IDX:
                            src = mem[i].get('mass') or disk[i]['mass']
                            new = {}
                            for n, f, e in zip(names, facs, deps):
                                inds = range(len(MASS[i])) if alli else act[i]
                                v = [float('nan')] * len(MASS[i])
                                for j in inds:
                                    v[j] = src[0][j] * H ** src[1] * f / H ** e
                                new[n] = (v, float(e), True)
                            for n in new:
                                if write:
                                    disk[i][n] = new[n]
                                    mem[i].pop(n, None)
                                    wrote = True
                                else:
                                    mem[i][n] = new[n]
                elif k == 'del':
                    names = op[1:]
                    call = lambda: sh.delete_property(*names)
                    if any(n not in disk[2] or not disk[2][n][2] for n in names):
                        err = True
                    else:
                        wrote = True
                        for i in IDX:
                            for n in names:
                                disk[i].pop(n)
                                mem[i].pop(n, None)
                elif k == 'range':
                    call = lambda: sh.set_property_range('mass', op[1], in_h_units=True)
                    if not init:
                        err = True
                    else:
                        for i in IDX:
                            src = mem[i].get('mass') or disk[i]['mass']
                            act[i] = [j for j in range(len(MASS[i])) if src[0][j] >= op[1]]
                elif k == 'narrow':         # limits without h
                    call = lambda: sh.set_property_range('pos_x', op[1], op[2], reset=False)
                    if not init:
                        err = True
                    else:
                        for i in IDX:
                            act[i] = [j for j in act[i] if op[1] <= POS[i][j] / H <= op[2]]
                elif k == 'reopen':
                    init = bool(op[1])
                    sh = self.SH('TNG100-3', init_snaps=init)
                    mem = {i: {} for i in IDX}
                    act = {i: list(range(len(MASS[i]))) for i in IDX}
                    call = lambda: None
                try:
                    call()
                    ctx.expect(not err, 'accepted', lambda: '{} accepted although invalid ({})'.format(op, case))
                except ValueError as e:
                    ctx.expect(err, 'refused', lambda: '{} refused: {} ({})'.format(op, e, case))
            self.compare(ctx, sh, disk, mem, act, case, 'session')
            self.compare(ctx, self.SH('TNG100-3'), disk, {i: {} for i in IDX}, {i: list(range(len(MASS[i]))) for i in IDX}, case, 'new session')
            key = repr((init, [sorted(disk[i].items()) for i in IDX], [sorted(mem[i].items()) for i in IDX], sorted(act.items())))
            ctx.state(key)
            ctx.end = core.digest(key)
            if wrote:
                ctx.interesting()
        finally:
            shutil.rmtree(base, ignore_errors=True)

    def compare(self, ctx, sh, disk, mem, act, case, who):
        w = lambda s: lambda: '{} {}: {}'.format(who, case, s())
        close = lambda a, b: np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=1e-5, equal_nan=True)
        for i, z in zip(IDX, ZS):
            sn = sh.get_snap(i)
            names = set(disk[i]) | set(mem[i])
            got = set(sn.extract_keys('any')) - {'pos_x', 'pos_y', 'pos_z'}
            ctx.expect(got == names, 'keys', w(lambda: 'snapshot {} has {} expected {}'.format(i, sorted(got), sorted(names))))
            for n in names:
                v, e, _ = mem[i].get(n) or disk[i][n]
                for alli in (True, False):
                    want = [v[j] for j in (range(len(v)) if alli else act[i])]
                    g = sn.return_property(n, use_all_inds=alli, in_h_units=True)
                    ctx.expect(close(g, want), 'values', w(lambda: 'snapshot {} {} all={}: {} expected {}'.format(i, n, alli, g, want)))
                    g = sn.return_property(n, use_all_inds=alli, in_h_units=False)
                    ctx.expect(close(g, np.array(want) * H ** e), 'values', w(lambda: 'snapshot {} {} without h: {}'.format(i, n, g)))
        # statistics over chosen snapshots, in the order asked for
        for snaps in (None, [6], [6, 2], [5, 5, 2]):
            use = IDX if snaps is None else snaps
            for alli in (True, False):
                vals, zs = sh.snap_stat(lambda m: list(map(float, m)), ['m'], kw_remap={'m': 'mass'}, give_args_in_h_units=True, use_all_inds=alli, snaps=snaps)
                ctx.expect(len(vals) == len(use) and [float(z) for z in zs] == [ZS[IDX.index(i)] for i in use], 'snap_stat', w(lambda: 'snaps {} redshifts {}'.format(snaps, zs)))
                for v, i in zip(vals, use):
                    src = (mem[i].get('mass') or disk[i]['mass'])[0]
                    want = [src[j] for j in (range(len(src)) if alli else act[i])]
                    ctx.expect(close(v, want), 'snap_stat', w(lambda: 'snaps {} snapshot {}: {} expected {}'.format(snaps, i, v, want)))


CHECK = C()
