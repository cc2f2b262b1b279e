"""C30  A write that fails or is interrupted leaves stored data as it was or as it was to become, and repeating it completes it."""
import builtins, contextlib, io, os, shutil
import numpy as np
from . import core, fake, lcmodel as lm
from .c06 import listing
from .core import Check

H = .5
SNAPS = [(2, .09), (5, .04), (6, 0.)]
UNITS = {'v_x': ('km/s', 0), 'v_y': ('km/s', 0), 'v_z': ('km/s', 0), 'sfr': ('Msun/yr', 0), 'id': ('None', 0), 'A': ('K', 0), 'B': ('K', 2)}
BLOCK = 12                   # fault points per case


class Fault(OSError):
    pass


class Kill(BaseException):
    pass


def signature(v):
    v = np.asarray(v)
    return (v.shape, v.dtype.kind, v.tobytes() if v.dtype.kind in 'iub' else repr(v.tolist()))


class Injector:
    """Counts storage operations and fails the k-th.

    pre, int   the operation fails (I/O error / Ctrl-C) without effect;  post: it fails after taking effect;
    torn       writes to text and npz files: only the first half of the k-th write arrives;
    full       from the k-th on, nothing that needs space works any more (deletions and renames do);
    kill       nothing at all works any more (text and npz files: what was written so far is on disk)"""

    GROW = ('create_group', 'create_dataset', 'set', 'resize', 'write', 'open', 'mkdir', 'attr', 'link')

    def __init__(self, h5py, k, mode, files_only=False):
        self.k, self.mode, self.n, self.fired, self.undo, self.h5py, self.files_only = k, mode, 0, None, [], h5py, files_only
        self.on = True

    def exc(self, what):
        if self.mode == 'int':
            return KeyboardInterrupt()
        return Kill() if self.mode == 'kill' else Fault('injected at ' + what)

    def around(self, what, f, half=None, post=True):
        """half: performs the first half of a write."""
        if not self.on:
            return f()
        self.n += 1
        me = self.n
        if self.fired is not None:
            if self.mode == 'kill' or self.mode == 'full' and what in self.GROW:
                raise self.exc(what)
            return f()
        if me != self.k:
            return f()
        if self.mode == 'post' and post:
            f()
            self.fired = what
        elif self.mode == 'torn':
            if half is None:
                return f()
            self.fired = what
            half()
        elif self.mode == 'full' and what not in self.GROW or self.mode == 'post':
            return f()
        else:
            self.fired = what
        raise self.exc(what)

    def patch(self, owner, name, what, post=True, when=None):
        orig = getattr(owner, name)
        inj = self

        def w(*a, **kw):
            if when is not None and not when(a, kw):
                return orig(*a, **kw)
            return inj.around(what, lambda: orig(*a, **kw), post=post)
        setattr(owner, name, w)
        self.undo.append((owner, name, orig))

    def patch_open(self, owner):
        orig = getattr(owner, 'open')
        inj = self

        def w(file, mode='r', *a, **kw):
            if not any(c in mode for c in 'wax+') or isinstance(file, int):
                return orig(file, mode, *a, **kw)
            return inj.around('open', lambda: Writer(inj, orig(file, mode, *a, **kw)), post=False)
        setattr(owner, 'open', w)
        self.undo.append((owner, 'open', orig))

    def __enter__(self):
        h = self.h5py
        for n in ('create_group', 'create_dataset'):
            self.patch(h.Group, n, n)
        self.patch(h.Group, '__setitem__', 'link')
        self.patch(h.Group, '__delitem__', 'del')
        self.patch(h.Group, 'move', 'move')
        self.patch(h.Group, 'copy', 'create_dataset')
        self.patch(h.Dataset, '__setitem__', 'set')
        self.patch(h.Dataset, 'resize', 'resize')
        self.patch(h.AttributeManager, '__setitem__', 'attr')
        self.patch(h.File, '__init__', 'open h5', post=False, when=lambda a, k: (a[2] if len(a) > 2 else k.get('mode', 'r')) != 'r')
        for n in ('remove', 'unlink', 'rename', 'replace'):
            self.patch(os, n, n)
        for n in ('mkdir', 'makedirs'):
            self.patch(os, n, 'mkdir')
        for n in ('rmtree', 'move'):
            self.patch(shutil, n, n)
        self.patch_open(builtins)
        self.patch_open(io)
        return self

    def __exit__(self, *a):
        self.on = False
        for o, n, f in reversed(self.undo):
            setattr(o, n, f)


class Writer:
    """A file open for writing whose writes are storage operations."""

    def __init__(self, inj, f):
        self.__dict__.update(inj=inj, f=f)

    def write(self, data):
        def go(d):
            r = self.f.write(d)
            self.f.flush()
            return r
        n = len(data)
        return self.inj.around('write', lambda: go(data), half=lambda: go(data[:(n + 1) // 2]))

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def __getattr__(self, k):
        return getattr(self.f, k)

    def __setattr__(self, k, v):
        setattr(self.f, k, v)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __iter__(self):
        return iter(self.f)


class C(Check):
    id = 'C30'
    level = 'fault_enumeration'
    technique = 'exhaustive fault-point enumeration (every storage operation of every writer outside SimCatalogs.format failing before or after taking effect, torn, disk full, Ctrl-C or kill) with recovery, on the real code'
    rule = 'one case = a block of fault points of one (stored state, call, fault mode); non-trivial if a fault fired'
    assumptions = ('failures of HDF5 files surface as Python exceptions at storage operations; a kill is only modelled for text and npz files',)
    chunk = 1

    def setup(self):
        import h5py
        from simim.lightcone import LCMaker, SphereMaker, LCHandler
        from simim.siminterface import SimHandler
        from simim.galprops import Prop, MultiProp
        from simim.map import gridder
        from simim import _paths
        import requests
        from simim.siminterface import universemachine, uchuu, illustris
        self.requests, self.um, self.uu, self.il = requests, universemachine, uchuu, illustris
        self.h5py, self.LCMaker, self.SphereMaker, self.LCHandler, self.SimHandler = h5py, LCMaker, SphereMaker, LCHandler, SimHandler
        self.Prop, self.MultiProp, self.gridder, self.Paths = Prop, MultiProp, gridder, _paths._SimIMPaths
        lm.memoize_cosmology()
        os.makedirs(os.path.join(core.ROOT, 'sims'))
        halos = {}
        for i in (2, 5, 6):
            d = lm.lattice(5, 60., (.1 * i, .3, .6), [5e11, 2e12, 1e12, 3e11, 1e13])
            t = np.arange(len(d['mass']))
            d.update({'id': t + 1000 * i, 'sfr': t / 8. + i})
            for j, c in enumerate('xyz'):
                d['v_' + c] = 100 * np.cos(t + j + i)
            halos[i] = d
        small = {i: {k: v[:3] for k, v in d.items()} for i, d in halos.items()}
        for sim, hs in (('TNG300-1', halos), ('TNG100-1', small)):
            p = os.path.join(core.ROOT, 'sims', sim)
            fake.write_sim(h5py, p, SNAPS, hs, box=60., h=H, name=sim, units=UNITS, dtypes={'id': 'i8'})
            fake.register(sim, p)
        self.simpath = os.path.join(core.ROOT, 'sims', 'TNG100-1')
        self.pure = {}
        self.prop = {n: Prop(n, lambda mass, f=f: mass * f, ['mass'], units=u, h_dependence=e) for n, f, u, e in (('A', 2., 'K', 0), ('B', 3., 'K', 2))}
        self.prop2 = {n: Prop(n, lambda mass, f=f: mass * f, ['mass'], units='m', h_dependence=1) for n, f in (('A', 5.), ('B', 7.))}
        self.multi = MultiProp(['A', 'B'], lambda mass: [mass * 5., mass * 7.], ['mass'], units=['m', 'm'], h_dependence=[1, 1])
        self.template = os.path.join(core.ROOT, 'templates')
        os.mkdir(self.template)
        self.made = {}

    # ---------------------------------------------------------------- enumeration
    def scenes(self, deep):
        for store in ('snap', 'cone'):
            for start in ('', 'A', 'AB'):
                for names in ('A', 'AB') if not deep else ('A', 'B', 'AB', 'BA'):
                    for dt in (None, 'f4') if deep else (None,):
                        yield ['write', store, start, names, dt]
                    for bad in ('dtype', 'unloaded', 'clash')[:3 if 'A' in start else 2]:
                        yield ['write!', store, start, names, bad]
            for start in ('A', 'AB'):
                for names in ('A', 'AB') if start == 'AB' else ('A',):
                    yield ['delete', store, start, names]
            for start in ('', 'A', 'AB'):
                for bad in ('raise', 'shape', 'few'):
                    yield ['make!', store, start, bad]
        for start in ('', 'A', 'AB'):
            for init in (0, 1):
                yield ['simwrite', start, init]
                for bad in ('raise1', 'raise2', 'raise3', 'dtype', 'shape3'):
                    yield ['simwrite!', start, init, bad]
        for start in ('A', 'AB'):
            yield ['simdelete', start, 'A']
        yield ['simdelete', 'AB', 'AB']
        for start in ('some', 'late'):
            yield ['simwrite!', start, 0, 'exists']
            yield ['simdelete', start, 'A']
        for what in ('sim', 'lc', 'prop'):
            for new in (0, 1):
                yield ['register', what, new]
        for start in ('none', 'same', 'other', 'gone'):
            yield ['root', start]
        for start in (0, 1):
            for over in (0, 1):
                for comp in (0, 1):
                    if start <= over:
                        yield ['save', start, over, comp]
        for fam in ('UniverseMachine-SMDPL', 'UniverseMachine-uchuu', 'TNG100-1'):
            for start in (0, 1):
                yield ['meta', fam, start]
        for maker in ('box', 'sphere'):
            yield ['add', maker, 'p', ['sfr']]
            yield ['add', maker, 'p', ['id', 'sfr']]
            yield ['add', maker, 'v', ['v']]
            for start in (0, 1):
                yield ['build', maker, start]

    def modes(self, scene):
        if scene[0].endswith('!'):
            return ['none']
        if scene[0] in ('register', 'root', 'save', 'meta'):
            return ['pre', 'post', 'int', 'torn', 'full', 'kill']
        return ['pre', 'post', 'int', 'full']

    def cases(self, tier):
        deep = tier == 'thorough'
        for scene in self.scenes(deep):
            for mode in self.modes(scene):
                if scene[0] == 'build' and not deep and mode in ('full',):
                    continue
                for part in range(8 if scene[0] == 'build' else 1):
                    yield {'scene': scene, 'mode': mode, 'part': [part, 8 if scene[0] == 'build' else 1]}

    # ---------------------------------------------------------------- stored states
    def restore(self, scene):
        """The stored state before the call, rebuilt from a template."""
        key = scene[0].rstrip('!') + repr(scene[1:3])
        if key not in self.made:
            tmp = os.path.join(self.template, str(len(self.made)))
            self.reset_places()
            self.fill(scene)
            os.mkdir(tmp)
            for i, p in enumerate(self.places()):
                if os.path.isdir(p):
                    shutil.copytree(p, os.path.join(tmp, str(i)))
                elif os.path.exists(p):
                    shutil.copy(p, os.path.join(tmp, str(i)))
            self.made[key] = tmp
        tmp = self.made[key]
        for i, p in enumerate(self.places()):
            if os.path.isdir(p):
                shutil.rmtree(p)
            elif os.path.exists(p):
                os.remove(p)
            src = os.path.join(tmp, str(i))
            if os.path.isdir(src):
                shutil.copytree(src, p)
            elif os.path.exists(src):
                shutil.copy(src, p)

    def places(self):
        r = core.ROOT
        return [os.path.join(r, 'sims'), os.path.join(r, 'simim_resources'), os.path.join(r, 'other'), os.path.join(r, 'grids'),
                os.path.join(core.PKG, 'simim', 'resources', 'rootpath.txt')]

    def reset_places(self):
        if 'clean' not in self.made:
            tmp = os.path.join(self.template, 'clean')
            os.mkdir(tmp)
            for i, p in enumerate(self.places()):
                if os.path.isdir(p):
                    shutil.copytree(p, os.path.join(tmp, str(i)))
                elif os.path.exists(p):
                    shutil.copy(p, os.path.join(tmp, str(i)))
            self.made['clean'] = tmp
        tmp = self.made['clean']
        for i, p in enumerate(self.places()):
            if os.path.isdir(p):
                shutil.rmtree(p)
            elif os.path.exists(p):
                os.remove(p)
            src = os.path.join(tmp, str(i))
            if os.path.isdir(src):
                shutil.copytree(src, p)
            elif os.path.exists(src):
                shutil.copy(src, p)

    def fill(self, scene):
        kind = scene[0].rstrip('!')
        if kind in ('write', 'make', 'delete') and scene[1] == 'cone' or kind in ('add',) or kind == 'build' and scene[2]:
            self.maker(scene[1] if kind in ('add', 'build') else 'box').build_lightcones(2, rng=self.rng(kind == 'build'))
        if kind in ('write', 'make', 'delete'):
            h = self.handler(scene[1])
            for n in scene[2]:
                h.make_property(self.prop[n], use_all_inds=True, write_to_disk=True)
        elif kind in ('simwrite', 'simdelete'):
            if scene[1] in ('some', 'late'):
                for i in (2, 5) if scene[1] == 'some' else (5,):
                    self.SimHandler('TNG100-1').get_snap(i).make_property(self.prop['A'], use_all_inds=True, write_to_disk=True)
            else:
                for n in scene[1]:
                    self.SimHandler('TNG100-1').make_property(self.prop[n], use_all_inds=True, write=True)
        elif kind == 'register':
            p = self.Paths()
            for d in ('a dir', 'b'):
                os.makedirs(os.path.join(core.ROOT, 'other', d))
            for f in (p._newsimpath, p._newlcpath, p._newproppath):
                f('one', os.path.join(core.ROOT, 'other', 'a dir'), checkoverwrite=False)
                f('two', os.path.join(core.ROOT, 'other', 'b'), checkoverwrite=False)
        elif kind == 'root':
            os.makedirs(os.path.join(core.ROOT, 'other', 'new root'))
            if scene[1] in ('none', 'other'):
                os.remove(self.places()[-1])
            if scene[1] == 'other':
                self.Paths()._setuppath(os.path.join(core.ROOT, 'other', 'new root'))
            if scene[1] == 'gone':       # the directory structure was deleted after it had been set up
                shutil.rmtree(os.path.join(core.ROOT, 'simim_resources'))
        elif kind == 'meta':
            os.mkdir(os.path.join(core.ROOT, 'grids'))
            if scene[2]:
                c = self.catalogue(scene[1], [0, 2])
                with self.web(scene[1], [3., 1.5, .5]):
                    c.download_meta()
        elif kind == 'save':
            os.mkdir(os.path.join(core.ROOT, 'grids'))
            self.grid(3.).save(os.path.join(core.ROOT, 'grids', 'other'))
            if scene[1]:
                self.grid(1.).save(os.path.join(core.ROOT, 'grids', 'g'))

    def catalogue(self, fam, snaps):
        with self.web(fam, [3., 1.5, .5]):
            path = os.path.join(core.ROOT, 'grids')
            if fam == 'TNG100-1':
                return self.il.IllustrisCatalogs(fam, 'k', path=path, snaps=[10 * i + 2 for i in snaps], updatepath=False)
            return (self.uu.UchuuCatalogs if fam == 'UniverseMachine-uchuu' else self.um.UniversemachineCatalogs)(fam, path=path, snaps=snaps, updatepath=False)

    @contextlib.contextmanager
    def web(self, fam, zs):
        get = self.requests.get
        self.requests.get = listing(fam, zs)
        try:
            yield
        finally:
            self.requests.get = get

    def grid(self, f):
        g = self.gridder.Grid(2, (1., 2.), (3., 2.), (1., 1.), axunits=['m', 's'], gridunits='K')
        g.init_grid()
        g.grid[...] = f * np.arange(12.).reshape(3, 2, 2)
        return g

    def rng(self, old=False):
        return lm.Script([[.31, .87, .52]] if old else [[.5, .25, .125]], lm.FLIPS[1:] if not old else lm.FLIPS[3:], [[.4, .6, .5]], [.15])

    def maker(self, kind):
        if kind == 'sphere':
            return self.SphereMaker('TNG300-1', 'lc', redshift_min=0, redshift_max=.0085, minimum_mass=6e11, overwrite=True)
        return self.LCMaker('TNG300-1', 'lc', 6., 1., redshift_min=.055, redshift_max=.075, minimum_mass=6e11, overwrite=True)

    def handler(self, store):
        return self.SimHandler('TNG100-1').get_snap(5) if store == 'snap' else self.LCHandler('TNG300-1', 'lc', 0)

    # ---------------------------------------------------------------- observation: {item: value}, through new objects
    def view(self, scene):
        kind = scene[0].rstrip('!')
        out = {}
        if kind in ('write', 'make', 'delete', 'simwrite', 'simdelete'):
            sim = self.SimHandler('TNG100-1')
            for i in (2, 5, 6):
                self.look(out, ('snap', i), sim.get_snap(i))
        if kind in ('write', 'make', 'delete') and scene[1] == 'cone':
            for i in (0, 1):
                self.look(out, ('cone', i), self.LCHandler('TNG300-1', 'lc', i))
        if kind == 'add':
            for i in (0, 1):
                self.look(out, ('cone', i), self.LCHandler('TNG300-1', 'lc', i))
        if kind == 'build':
            out['sim'] = open(os.path.join(core.ROOT, 'sims', 'TNG300-1', 'data.hdf5'), 'rb').read()
            for i in (0, 1):
                try:
                    h = self.LCHandler('TNG300-1', 'lc', i)
                except Exception:
                    out['cone', i] = 'cannot be opened'
                    continue
                one = {}
                self.look(one, 'p', h)
                one['meta'] = repr(sorted((k, repr(np.asarray(v).tolist())) for k, v in h.metadata.items() if k not in ('created', 'finished', 'status_basic', 'status_extra_initialized', 'status_extra_completed')))
                out['cone', i] = repr(sorted(one.items(), key=repr))
        if kind in ('register', 'root'):
            p = self.Paths()
            if kind == 'root':
                out['root'] = repr((p.root, sorted(p.sims.items()), sorted(p.lcs.items()), sorted(p.props.items())))
            else:
                out['root'] = p.root
                for w in ('sims', 'lcs', 'props'):
                    for k, v in getattr(p, w).items():
                        out[w, k] = v
        if kind == 'meta':
            c = self.catalogue(scene[1], [0, 1, 2])
            if c.metadata is not None:
                out['metadata'] = repr(sorted(c.metadata.items()))
                out['snapshots'] = repr(c.snap_meta.tolist())
        if kind == 'save':
            for f in ('g', 'other'):
                path = os.path.join(core.ROOT, 'grids', f + '.npz')
                if os.path.exists(path):
                    g = self.gridder.LoadGrid(path)
                    out[f] = repr([g.grid.tolist(), [a.tolist() for a in g.axes], [repr(u) for u in g.axunits], repr(g.gridunits), np.asarray(g.pixel_size).tolist()])
        return out

    def look(self, out, tag, h):
        for k in h.extract_keys('saved'):
            v = h.return_property(k, use_all_inds=True, in_h_units=True)
            out[(tag, k)] = (signature(v), str(h.properties_units[k]), float(h.properties_h_dependence[k]))

    # ---------------------------------------------------------------- the calls
    def call(self, scene, again=False):
        """-> (function that makes the call, live object or None); `again`: the caller repeats a failed call."""
        kind = scene[0]
        if kind in ('write', 'write!'):
            _, store, start, names, how = scene
            how = 'f4' if how == 'f4' else None if again else how
            h = self.handler(store)
            for n in names:
                if how == 'unloaded' and n == names[-1]:
                    continue
                h.make_property(self.prop2[n], use_all_inds=True, overwrite=True)
            if how == 'clash':
                return lambda: h.write_property(*names, *('A',) if 'A' not in names else (), overwrite=False), h
            dt = 'no such type' if how == 'dtype' else how if how == 'f4' else None
            return lambda: h.write_property(*names, overwrite=True, dtype=dt), h
        if kind == 'delete':
            h = self.handler(scene[1])
            return lambda: h.delete_property(*[n for n in scene[3] if not again or h.has_property(n)]), h
        if kind == 'make!':
            h = self.handler(scene[1])

            def f(mass):
                if scene[3] == 'raise' and not again:
                    raise Fault('user function')
                return [mass * 5., mass * 7.] if again else [mass * 5., mass[:-1] * 7.] if scene[3] == 'shape' else [mass * 5.]
            p = self.MultiProp(['A', 'B'], f, ['mass'], units=['m', 'm'], h_dependence=[1, 1])
            return lambda: h.make_property(p, use_all_inds=True, overwrite=True, write_to_disk=True, overwrite_to_disk=True), h
        if kind in ('simwrite', 'simwrite!'):
            start, init, bad = (scene + [None])[1:4]
            s = self.SimHandler('TNG100-1', init_snaps=bool(init))
            if bad == 'exists':
                return lambda: s.make_property(self.prop2['A'], use_all_inds=True, write=True, overwrite=again), s
            if again:
                bad = None
            n = [0]

            def f(mass):
                n[0] += 1
                if bad == 'raise{}'.format(n[0]):
                    raise Fault('user function')
                return [mass * 5., mass[:-1] * 7. if bad == 'shape{}'.format(n[0]) else mass * 7.]
            p = self.MultiProp(['A', 'B'], f, ['mass'], units=['m', 'm'], h_dependence=[1, 1])
            return lambda: s.make_property(p, use_all_inds=True, overwrite=True, write=True, writedtype='no such type' if bad == 'dtype' else None), s
        if kind == 'simdelete':
            s = self.SimHandler('TNG100-1')
            there = {n for i in (2, 5, 6) for n in s.get_snap(i).extract_keys('saved')}
            return lambda: s.delete_property(*[n for n in scene[2] if not again or n in there]), s
        if kind == 'register':
            p = self.Paths()
            f = {'sim': p._newsimpath, 'lc': p._newlcpath, 'prop': p._newproppath}[scene[1]]
            return lambda: f('three' if scene[2] else 'one', 'auto' if scene[2] else os.path.join(core.ROOT, 'other', 'b'), checkoverwrite=False), p
        if kind == 'root':
            p = self.Paths()
            self.held = p.root
            return lambda: p._setuppath(core.ROOT if scene[1] != 'same' else os.path.join(core.ROOT, 'other', 'new root')), p
        if kind == 'save':
            g = self.grid(2.)
            return lambda: g.save(os.path.join(core.ROOT, 'grids', 'g'), compress=bool(scene[3]), overwrite=bool(scene[2])), g
        if kind == 'meta':
            c = self.catalogue(scene[1], [0, 1, 2])

            def go():
                with self.web(scene[1], [3., 1.5, .5]):
                    c.download_meta(True)
            return go, c
        if kind == 'build':
            mk = self.maker(scene[1])
            return lambda: mk.build_lightcones(2, rng=self.rng()), None
        if kind == 'add':
            mk = self.maker(scene[1])
            mk.build_lightcones(2, rng=self.rng())
            return lambda: (mk.add_properties if scene[2] == 'p' else mk.add_pos_properties)(*scene[3]), mk
        raise AssertionError(scene)

    def attempt(self, f):
        answers = builtins.input
        builtins.input = lambda *a: 'y'
        try:
            f()
            return None
        except (Exception, KeyboardInterrupt, Kill) as e:
            return e
        finally:
            builtins.input = answers

    def pristine(self, scene):
        key = repr(scene)
        if key not in self.pure:
            self.restore(scene)
            before = self.view(scene)
            f, live = self.call(scene, True)
            e = self.attempt(f)
            if e is not None:
                raise e
            after = self.view(scene)
            self.pure[key] = before, after
        return self.pure[key]

    def run(self, case, ctx):
        scene, mode = case['scene'], case['mode']
        part, parts = case['part']
        try:
            before, after = self.pristine(scene)
            ctx.expect(before != after or scene[0] == 'root', 'noop', lambda: '{}: the call changed nothing'.format(case))
            allowed = before if scene[0] in ('write!', 'make!') or scene[-1] in ('dtype', 'exists') else after
            k = part + 1
            while True:
                self.restore(scene)
                f, live = self.call(scene)
                with Injector(self.h5py, k if mode != 'none' else -1, mode) as inj:
                    e = self.attempt(f)
                ctx.step()
                where = lambda: '{}: fault at storage operation {} ({})'.format(case, k, inj.fired)
                if mode == 'none':
                    ctx.expect(e is not None, 'accepted', lambda: '{}: the call was accepted'.format(case))
                    ctx.interesting()
                    self.judge(ctx, scene, mode, before, allowed, live, lambda: '{} failed with {!r}'.format(case, e))
                    f, live = self.call(scene, True)
                    e = self.attempt(f)
                    now = self.attempt_view(ctx, scene, lambda: '{} and repeated correctly'.format(case))
                    ctx.expect(e is None and now == after, 'repeat', lambda: '{}: repeating it correctly gives {!r}: {}'.format(case, e, self.diff(now, before, after)))
                    break
                if inj.fired is None:
                    if k > inj.n:
                        break
                    k += parts
                    continue
                ctx.interesting()
                if e is None and mode != 'kill' and scene[0] not in ():
                    # the writer found another way: then the result must be complete
                    now = self.view(scene)
                    ctx.expect(now == after, 'swallowed', lambda: where() + ': no error, but the result is not that of an undisturbed call: ' + self.diff(now, before, after))
                else:
                    self.judge(ctx, scene, mode, before, after, live, where)
                    # repeat
                    f, live = (f, live) if scene[0] == 'add' else self.call(scene, True)
                    e = self.attempt(f)
                    now = self.attempt_view(ctx, scene, lambda: where() + ', repeated')
                    if scene[0] == 'save' and not scene[2] and e is not None:
                        pass          # not overwriting: a completed first attempt is refused the second time
                    elif e is not None:
                        ctx.expect(isinstance(e, ValueError) and now == after and scene[0] in ('delete', 'simdelete'), 'repeat', lambda: '{}: repeating it fails with {!r}'.format(where(), e))
                    ctx.expect(now == after, 'repeat', lambda: '{}: repeating it gives a different result from an undisturbed call: {}'.format(where(), self.diff(now, before, after)))
                k += parts
            ctx.evals = max(1, k // parts)
            ctx.state((scene, mode, part))
        finally:
            self.reset_places()

    def attempt_view(self, ctx, scene, where):
        try:
            return self.view(scene)
        except Exception as e:
            import traceback
            ctx.expect(False, 'unreadable', lambda: '{}: stored data can no longer be read: {!r} {}'.format(where(), e, traceback.format_exc()[-600:]))

    def diff(self, now, before, after):
        return '; '.join('{}: {} (before {}, after {})'.format(k, *[str(d.get(k, 'absent'))[:160] for d in (now, before, after)])
                         for k in sorted(set(now) | set(after), key=repr) if now.get(k) != after.get(k))[:1200]

    def judge(self, ctx, scene, mode, before, after, live, where):
        now = self.attempt_view(ctx, scene, where)
        for k in sorted(set(now) | set(before) | set(after), key=repr):
            v = now.get(k)
            ok = v == before.get(k) or v == after.get(k) or scene[0] == 'build' and v == 'cannot be opened'
            ctx.expect(ok, 'lost' if v is None else 'partial', lambda: '{}: {} is {} (before: {}, after: {})'.format(
                where(), k, *[str(d.get(k, 'absent'))[:200] for d in (now, before, after)]))
        if scene[0].rstrip('!') in ('write', 'make', 'delete'):
            saved = {k[1] for k in now if isinstance(k, tuple) and k[0] == (('snap', 5) if scene[1] == 'snap' else ('cone', 0))}
            ctx.expect(set(live.extract_keys('saved')) == saved, 'stale', lambda: '{}: the handler lists {} as saved, on disk are {}'.format(where(), sorted(live.extract_keys('saved')), sorted(saved)))
            for k in live.extract_keys('any'):
                ctx.expect(live.has_property(k), 'stale', lambda: where() + ': lists ' + k)
                try:
                    live.return_property(k, use_all_inds=True)
                except Exception as e:
                    ctx.expect(False, 'stale', lambda: '{}: the handler cannot return {}: {!r}'.format(where(), k, e))
        if scene[0] == 'make!':
            for n in scene[2]:
                want = np.asarray(live.return_property('mass', use_all_inds=True)) * (2. if n == 'A' else 3.)
                got = np.asarray(live.return_property(n, use_all_inds=True))
                ctx.expect(np.allclose(got, want, rtol=1e-6, atol=0), 'replaced', lambda: '{}: property {} was replaced by the failed call'.format(where(), n))
            ctx.expect(sorted(set(live.extract_keys('any'))) == sorted(k[1] for k in now if isinstance(k, tuple) and k[0] == (('snap', 5) if scene[1] == 'snap' else ('cone', 0))), 'replaced',
                       lambda: '{}: properties after the failed call: {}'.format(where(), live.extract_keys('any')))
        if scene[0] == 'register' and mode != 'kill':
            for w in ('sims', 'lcs', 'props'):
                here = getattr(live, w)
                for name in set(here) | {k[1] for k in now if k[0] == w}:
                    ctx.expect(here.get(name) in (now.get((w, name)), before.get((w, name))), 'stale', lambda: '{}: the registry in use says {} for {} {}, on disk is {}'.format(
                        where(), here.get(name), w, name, now.get((w, name))))
        if scene[0] == 'root' and mode != 'kill':
            there = self.Paths().root
            ctx.expect(live.root == there or live.root == self.held, 'stale', lambda: '{}: the registry in use has the root {}, on disk is {}'.format(where(), live.root, there))
        if scene[0] == 'save' and mode not in ('kill',):
            extra = set(os.listdir(os.path.join(core.ROOT, 'grids'))) - {'g.npz', 'other.npz'}
            ctx.expect(not extra, 'leftover', lambda: '{}: leaves {}'.format(where(), sorted(extra)))


CHECK = C()
