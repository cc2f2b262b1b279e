"""C07  Properties of a snapshot handler: every sequence of load/unload/make/overwrite/write/delete/select
keeps memory, disk, units and property lists consistent."""
import os, shutil
import numpy as np
from . import core, fake
from .core import Check

H = 0.5
MASS = [8e12, 4e11, 2e10, 1e10]
VX = [1., -2., 3., -4.]


def scribble(x):
    x[...] = 0


class C(Check):
    id = 'C07'
    technique = 'explicit-state BFS over handler operation histories on a real HDF5 file, real Handler vs. reference state (memory, disk, selection)'
    rule = 'one case = one operation history; non-trivial if it changes memory, disk or selection more than once'
    assumptions = ('one handler instance at a time writes the file', 'SimIM h convention: value without h = stored value * h**h_dependence')
    chunk = 8

    def setup(self):
        import h5py
        from simim._handlers import Handler
        from simim.siminterface.simhandler import SnapHandler
        from simim.galprops import Prop, MultiProp
        self.h5py, self.Snap, self.Prop, self.Multi = h5py, SnapHandler, Prop, MultiProp
        self.cosmo = fake.cosmology(H, .3, .05)

    def ops(self, deep):
        ops = [['load', 'mass'], ['load', 'A'], ['load', 'v_x'], ['unload', 'A'], ['unload', 'v_x'], ['unload', 'mass'],
               ['make', 'A', 1, 0, 0, 0], ['make', 'A', 1, 0, 1, 0], ['make', 'A', 2, 1, 0, 0], ['make', 'A', 3, 1, 1, 0],
               ['make', 'v_x', 2, 1, 1, 0], ['make', 'v_x', 1, 0, 1, 0],
               ['make', 'A', 2, 1, 1, 1], ['multi', 0], ['multi', 1],
               ['write', 'A', 0, None], ['write', 'A', 1, None], ['write', 'A', 1, 'i4'], ['write', 'v_x', 1, None],
               ['delete', 'A'], ['delete', 'v_x'],
               ['range', 'mass', 1, 1e11, np.inf], ['range', 'v_x', 0, 0., np.inf], ['range', None, 1, 0, 0],
               ['range', 'mass', 1, 1e20, np.inf],
               ['reopen']]
        if deep:
            ops += [['load', 'B'], ['write', 'B', 0, 'f4'], ['delete', 'B'], ['unload', 'B'], ['make', 'B', 3, 1, 0, 0]]
        return ops

    def explore(self, tier, x):
        deep = tier == 'thorough'
        x.bfs(lambda h: {'h': h}, self.ops(deep), 4 if deep else 3, tag='handler',
              start=((), (['make', 'A', 1, 0, 1, 0], ['write', 'A', 0, None])))

    # property functions: given no-h mass; return no-h values
    def props(self, kind):
        if kind == 1:      # float, h dependence -1
            return (lambda mass: mass * 3.0), 'Msun/h', -1, lambda m, i: m * 3.0
        if kind == 2:      # float32, h dependence +2
            return (lambda mass: (mass / 2.0).astype('f4')), 'K', 2, lambda m, i: m / 2.0
        # integer counts, no h dependence
        return (lambda mass: np.arange(len(mass), dtype='i4') + 7), 'none', 0, lambda m, i: i + 7

    def run(self, case, ctx):
        base = core.fresh_dir(ctx.scratch)
        try:
            halos = {3: {'pos_x': [1, 2, 3, 4], 'pos_y': [1, 2, 3, 4], 'pos_z': [1, 2, 3, 4], 'v_x': VX, 'mass': MASS}}
            fake.write_sim(self.h5py, base, [(3, 1.0)], halos, h=H)
            path = os.path.join(base, 'data.hdf5')
            mk = lambda: self.Snap(path, 3, 1.0, self.cosmo, 8.0)
            hd = mk()
            disk = {'mass': (list(map(float, np.float32(MASS))), 'Msun/h', -1.), 'v_x': (VX, 'km/s', 0.)}
            for k in ('pos_x', 'pos_y', 'pos_z'):
                disk[k] = ([1., 2., 3., 4.], 'Mpc/h', -1.)
            mem = {}
            act = [0, 1, 2, 3]
            changes = 0

            def current(n):
                return mem.get(n, disk.get(n))

            for op in case['h']:
                ctx.step()
                before = repr((sorted(disk), sorted(mem), act))
                err = None
                # ---- the model decides what must happen
                k = op[0]
                if k == 'load':
                    if op[1] not in disk:
                        err = ValueError
                    else:
                        mem[op[1]] = disk[op[1]]
                    call = lambda: hd.load_property(op[1])
                elif k == 'unload':
                    mem.pop(op[1], None)
                    call = lambda: hd.unload_property(op[1])
                elif k == 'make':
                    _, name, kind, over, allinds, todisk = op
                    fn, unit, hdep, ref = self.props(kind)
                    restricted = (not allinds) and act != [0, 1, 2, 3]
                    p = self.Prop(name if kind != 3 else 'orig', fn, ['mass'], units=unit, h_dependence=hdep)
                    kw = dict(rename=name if kind == 3 else None, overwrite=bool(over), use_all_inds=bool(allinds))
                    if todisk:
                        kw.update(write_to_disk=True, overwrite_to_disk=True, unload_to_disk=True)
                    call = lambda: hd.make_property(p, **kw)
                    if (current(name) is not None and not over) or (todisk and restricted):
                        err = ValueError
                    else:
                        src = current('mass')
                        inds = [0, 1, 2, 3] if allinds else act
                        vals = [float('nan')] * 4
                        for j, i in enumerate(inds):
                            m = src[0][i] * H ** src[2]
                            vals[i] = ref(m, j) / H ** hdep
                        rec = (vals, unit, float(hdep))
                        if todisk:
                            disk[name] = rec
                            mem.pop(name, None)
                        else:
                            mem[name] = rec
                elif k == 'multi':
                    names = ['A', 'B']
                    p = self.Multi(names, lambda mass: (mass * 2.0, mass * 5.0), ['mass'], units=['u1', 'u2'], h_dependence=[-1, 1])
                    over = bool(op[1])
                    call = lambda: hd.make_property(p, overwrite=over)
                    if not over and any(current(n) is not None for n in names):
                        err = ValueError
                    else:
                        src = current('mass')
                        for n, f, u, e in (('A', 2., 'u1', -1.), ('B', 5., 'u2', 1.)):
                            vals = [float('nan')] * 4
                            for i in act:
                                vals[i] = src[0][i] * H ** src[2] * f / H ** e
                            mem[n] = (vals, u, e)
                elif k == 'write':
                    _, name, over, dt = op
                    call = lambda: hd.write_property(name, overwrite=bool(over), dtype=dt)
                    if name not in mem or (name in disk and not over):
                        err = ValueError
                    elif dt == 'i4' and any(v != v or abs(v) > 2e9 for v in mem[name][0]):
                        continue        # undefined conversion
                    else:
                        v = mem[name]
                        disk[name] = ([float(int(x)) for x in v[0]] if dt == 'i4' else list(v[0]), v[1], v[2])
                elif k == 'delete':
                    call = lambda: hd.delete_property(op[1])
                    if op[1] not in disk:
                        err = ValueError
                    else:
                        disk.pop(op[1])
                        mem.pop(op[1], None)
                elif k == 'range':
                    _, name, reset, lo, hi = op
                    call = lambda: hd.set_property_range() if name is None else hd.set_property_range(name, lo, hi, reset=bool(reset), in_h_units=True)
                    if name is None:
                        act = [0, 1, 2, 3]
                    elif current(name) is None:
                        err = ValueError
                    else:
                        sel = [i for i in range(4) if lo <= current(name)[0][i] <= hi]
                        act = sel if reset else [i for i in act if i in sel]
                elif k == 'reopen':
                    hd = mk()
                    mem, act = {}, [0, 1, 2, 3]
                    call = lambda: None
                try:
                    call()
                    ctx.expect(err is None, 'accepted', lambda: '{} accepted although invalid (history {})'.format(op, case['h']))
                except ValueError as e:
                    ctx.expect(err is not None, 'refused', lambda: '{} refused: {} (history {})'.format(op, e, case['h']))
                if repr((sorted(disk), sorted(mem), act)) != before:
                    changes += 1
            # ---- observe
            self.compare(ctx, hd, disk, mem, act, case['h'], 'handler')
            self.compare(ctx, mk(), disk, {}, [0, 1, 2, 3], case['h'], 're-opened handler')
            key = repr((sorted(disk.items()), sorted(mem.items()), act))
            ctx.state(key)
            ctx.end = core.digest(key)
            if changes > 1:
                ctx.interesting()
        finally:
            shutil.rmtree(base, ignore_errors=True)

    def compare(self, ctx, hd, disk, mem, act, hist, who):
        names = set(disk) | set(mem)
        w = lambda s: lambda: '{} after {}: {}'.format(who, hist, s())
        for kind, want in (('any', names), ('loaded', set(mem)), ('saved', set(disk))):
            got = list(hd.extract_keys(kind))
            ctx.expect(sorted(got) == sorted(want), 'keys', w(lambda: 'extract_keys({}) = {} expected {}'.format(kind, sorted(got), sorted(want))))
        gen = set(hd.extract_keys('generated'))
        ctx.expect(gen <= names, 'keys', w(lambda: 'generated {} not all existing {}'.format(gen, names)))
        for n in ('A', 'B', 'mass', 'v_x', 'pos_x', 'nothing'):
            ctx.expect(bool(hd.has_property(n)) == (n in names), 'has', w(lambda: 'has_property({}) = {}'.format(n, hd.has_property(n))))
            ctx.expect(bool(hd.has_loaded(n)) == (n in mem), 'has', w(lambda: 'has_loaded({}) = {}'.format(n, hd.has_loaded(n))))
            if n not in names:
                try:
                    v = hd.return_property(n)
                    ctx.fail('ghost', w(lambda: 'return_property({}) = {} although it does not exist'.format(n, v))())
                except ValueError:
                    pass
                continue
            vals, unit, hdep = mem.get(n, disk.get(n))
            ctx.expect((hd.properties_units[n], float(hd.properties_h_dependence[n])) == (unit, hdep), 'units',
                       w(lambda: '{} units {} h {} expected {} {}'.format(n, hd.properties_units[n], hd.properties_h_dependence[n], unit, hdep)))
            for alli in (True, False):
                for inh in (True, False, None):
                    want = np.array([vals[i] for i in (range(4) if alli else act)]) * (1. if inh else H ** hdep)
                    for again in ('', ' after the user changed the array returned before', ' after a function changed its argument'):
                        raw = hd.return_property(n, use_all_inds=alli, in_h_units=inh)
                        got = np.array(raw, dtype=float)
                        ctx.expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-5, equal_nan=True), 'values',
                                   w(lambda: '{} (all={}, h={}){} = {} expected {}'.format(n, alli, inh, again, got, want)))
                        if not again:
                            raw[...] = 0
                        else:
                            hd.eval_stat(scribble, ['x'], kw_remap={'x': n}, use_all_inds=alli, give_args_in_h_units=inh)
        ctx.expect(hd.nhalos_active == len(act), 'selection', w(lambda: 'nhalos_active {} expected {}'.format(hd.nhalos_active, len(act))))


CHECK = C()
