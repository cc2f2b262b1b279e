"""C32  Processes that work with the same data directory at the same time do not disturb each other."""
import builtins, itertools, os, re, shlex, shutil
import numpy as np
from . import core, fake, lcmodel as lm, procs
from .c06 import listing
from .core import Check

H = .5
SNAPS = [(2, .09), (5, .04), (6, 0.)]
UNITS = {'v_x': ('km/s', 0), 'v_y': ('km/s', 0), 'v_z': ('km/s', 0), 'sfr': ('Msun/yr', 0), 'vmax': ('km/s', 0)}


def sig(v):
    v = np.asarray(v)
    return (v.shape, v.dtype.kind, v.tobytes() if v.dtype.kind in 'iub' else repr(v.tolist()))


class C(Check):
    id = 'C32'
    technique = 'stateless model checking with dynamic partial-order reduction of real processes under a controlled scheduler: every class of interleavings of the file operations of two (thorough: three) processes, compared with all serial executions of their calls'
    rule = 'one case = all inequivalent interleavings of one set of processes from one stored state; non-trivial if there is more than one'
    assumptions = ('text and table files become visible to others when their buffer (8 kB) is full or they are closed', 'HDF5 files are locked by the process that has them open (the default of the library)',
                   'the file system orders operations as they are made')
    chunk = 1
    case_limit = 800

    def setup(self):
        # the table of behroozi13 takes seconds to make: keep a part of its data
        data = os.path.join(core.PKG, 'simim', 'resources', 'behroozi13_release.dat')
        if os.path.exists(data):
            lines = [l for l in builtins.open(data) if l.strip()]
            rows = [l.split()[:2] for l in lines if l[0] != '#']
            keep = [set(sorted({r[i] for r in rows}, key=float)[::k]) for i, k in ((0, 12), (1, 6))]
            with builtins.open(data, 'w') as f:
                f.writelines(l for l in lines if l[0] == '#' or l.split()[0] in keep[0] and l.split()[1] in keep[1])
        import h5py
        from simim.lightcone import LCMaker, SphereMaker, LCHandler
        from simim.siminterface import SimHandler
        from simim.galprops import Prop, sfr_ir, sfr_bethermin17, sfr_behroozi13
        from simim.map import gridder
        from simim import _paths
        import requests
        from simim.siminterface import universemachine, uchuu, illustris
        self.requests, self.um, self.uu, self.il = requests, universemachine, uchuu, illustris
        self.h5py, self.LCMaker, self.SphereMaker, self.LCHandler, self.SimHandler = h5py, LCMaker, SphereMaker, LCHandler, SimHandler
        self.gridder, self.Paths = gridder, _paths._SimIMPaths
        self.models = {'g13': sfr_ir.g13irlf_base, 'b17': sfr_bethermin17.bethermin17_base, 'be': sfr_behroozi13.behroozi13_base}
        lm.memoize_cosmology()
        os.makedirs(os.path.join(core.ROOT, 'sims'))
        halos = {}
        for i in (2, 5, 6):
            d = lm.lattice(4, 60., (.1 * i, .3, .6), [5e11, 2e12, 1e12, 3e11, 1e13])
            t = np.arange(len(d['mass']))
            d.update({'sfr': t / 8. + i, 'vmax': 100. + 7 * t})
            for j, c in enumerate('xyz'):
                d['v_' + c] = 100 * np.cos(t + j + i)
            halos[i] = d
        small = {i: {k: v[:3] for k, v in d.items()} for i, d in halos.items()}
        for sim, hs in (('TNG300-1', halos), ('TNG100-1', small)):
            p = os.path.join(core.ROOT, 'sims', sim)
            fake.write_sim(h5py, p, SNAPS, hs, box=60., h=H, name=sim, units=UNITS)
            fake.register(sim, p)
        self.prop = {n: Prop(n, lambda mass, f=f: mass * f, ['mass'], units=u, h_dependence=e) for n, f, u, e in (('A', 2., 'K', 0), ('B', 3., 'm', 2))}
        self.prop2 = Prop('A', lambda mass: mass * 5., ['mass'], units='K', h_dependence=0)
        self.template = os.path.join(core._SCRATCH, 'templates')
        os.mkdir(self.template)
        self.made = {}
        # warm up what does not depend on files
        self.keep = self.maker('warm', True)
        shutil.rmtree(os.path.join(core.ROOT, 'simim_resources', 'lightcones'))
        os.mkdir(os.path.join(core.ROOT, 'simim_resources', 'lightcones'))
        os.remove(os.path.join(core.ROOT, 'simim_resources', '.paths', 'lcpaths.txt'))

    # ---------------------------------------------------------------- enumeration: [stored state, actors (lists of steps)]
    def cases(self, tier):
        deep = tier == 'thorough'
        # models with tables
        for m in ('g13', 'b17', 'be'):
            pars = ('mass', 'vmax')[:1 if m == 'be' else 2]
            for start in ('', 'table mass'):
                for p in pars:
                    for ra, rb in ((False, False), (False, True), (True, True)):
                        # (what is being replaced cannot be read reliably)
                        if (start == '' and not rb or start and p == 'mass' and ra == rb) and (deep or p == 'mass' and (start or m == 'be')):
                            yield {'start': start + (' ' + m if start else ''), 'actors': [[['model', m, p, ra]], [['model', m, p, rb]]]}
                if start == '':
                    yield {'start': 'place mass ' + m, 'actors': [[['model', m, 'mass', False]], [['model', m, 'mass', False]]]}
                if m != 'be':
                    yield {'start': start + (' ' + m if start else ''), 'actors': [[['model', m, 'mass', False]], [['model', m, 'load', False]]]}
        yield {'start': 'known', 'actors': [[['model', 'g13', 'mass', False]], [['model', 'g13', 'mass', False]]]}
        yield {'start': '', 'actors': [[['model', 'g13', 'mass', False]], [['model', 'b17', 'mass', False]]]}
        # sessions and the registry
        regs = [['reg', k, n, how] for k in ('sim', 'lc', 'prop') for n, how in (('TNG100-2', 'auto'), ('TNG100-3', 'auto'), ('TNG100-2', 'a'), ('TNG100-2', 'b'))]
        for start in ('', 'known', 'repeated'):
            for a, b in itertools.combinations_with_replacement(regs, 2):
                if deep or a[1] == b[1] or a[2:] == b[2:] == ['TNG100-2', 'auto']:
                    yield {'start': start, 'actors': [[['session'], a, ['see']], [['session'], b, ['see']]]}
            for a, b in itertools.product(regs, repeat=2):
                if a[1] == b[1] and a != b and (deep or b[3] == 'auto'):
                    yield {'start': start, 'actors': [[['session'], a, b], [['session'], ['see'], ['session'], ['see']]]}
        for start in ('noroot', 'bare', '', 'otherroot'):
            for a, b in (('root', 'root'), ('root', 'root2'), ('root2', 'root2')):
                yield {'start': start, 'actors': [[['session'], ['setup', a], ['see']], [['session'], ['setup', b], ['see']]]}
            for a in ('root', 'root2'):
                yield {'start': start, 'actors': [[['session'], ['setup', a], ['see']], [['session'], ['see'], ['session'], ['see']]]}
        # light cones
        for start in ('', 'cones'):
            for over in (True, False, 'y', 'n'):
                for names in (('s1', 's2'), ('s1', 's1')):
                    # (the same set cannot be built twice at the same time)
                    yield {'start': start, 'actors': [[['maker', n, over]] + [['build']] * (names == ('s1', 's2')) for n in names]}
            yield {'start': start, 'actors': [[['maker', 's1', True], ['build'], ['cone', 's1']], [['sim'], ['read', 5, 'mass']]]}
            yield {'start': start, 'actors': [[['maker', 's1', True], ['build'], ['add']], [['maker', 's2', True], ['build'], ['add']]]}
            yield {'start': start, 'actors': [[['maker', 's1', True]], [['maker', 's2', 'sphere']]]}
            for m in ('g13', 'b17'):
                yield {'start': start, 'actors': [[['maker', 's1', True], ['build']], [['model', m, 'vmax', False]]]}
        yield {'start': 'cones', 'lock': 2 if deep else 1, 'actors': [[['maker', 's2', True], ['build']], [['cone', 's1'], ['cone', 's1']]]}
        # properties of one simulation
        for start in ('', 'A'):
            for a, b in ((['write', 'A'], ['write', 'B']), (['write', 'A'], ['write', 'A']), (['delete', 'A'], ['write', 'B']), (['write', 'A2'], ['read', 5, 'A']), (['write', 'B'], ['read', 6, 'mass']),
                         (['delete', 'A'], ['read', 5, 'A']), (['snapwrite', 5, 'B'], ['snapwrite', 5, 'A2']), (['snapwrite', 5, 'B'], ['snapwrite', 6, 'B'])):
                if start == 'A' or a[0] != 'delete' and b[-1] != 'A':
                    yield {'start': start, 'lock': 2 if deep else 1, 'actors': [[['sim'], a], [['sim'], b]]}
            yield {'start': start, 'lock': 2 if deep else 1, 'actors': [[['sim'], ['write', 'B']], [['maker', 's1', True], ['build']]]}
        # grids
        for start in ('', 'grid'):
            yield {'start': start, 'actors': [[['save', 'g', 2., True]], [['save', 'g', 3., True]]]}
            yield {'start': start, 'actors': [[['save', 'g', 2., True]], [['save', 'h', 3., True]]]}
            yield {'start': 'grid', 'actors': [[['save', 'g', 2., True], ['save', 'g' if start else 'h', 4., True]], [['load', 'g'], ['load', 'g']]]}
        # metadata and downloads
        for fam in ('UniverseMachine-SMDPL', 'UniverseMachine-uchuu', 'TNG100-1'):
            for start in ('', 'auto'):
                how = start or 'path'
                yield {'start': start, 'actors': [[['cat', fam, how, [0, 1, 2]], ['meta', False]], [['cat', fam, how, [0, 1, 2]], ['meta', False]]]}
                yield {'start': start, 'actors': [[['cat', fam, how, [0, 1, 2]], ['meta', True]], [['cat', fam, how, [0, 1, 2]], ['meta', True]]]}
            for sa, sb in (([0], [1]), ([0, 1], [1, 2]), ([1], [1])):
                if fam != 'TNG100-1' or sa == [0]:
                    yield {'start': 'meta ' + fam, 'actors': [[['cat', fam, 'path', sa], ['download']], [['cat', fam, 'path', sb], ['download']]]}
        if deep:
            for regset in itertools.combinations_with_replacement(regs[4:8], 3):
                yield {'start': '', 'actors': [[['session'], r] for r in regset]}
            yield {'start': '', 'actors': [[['maker', n, True]] for n in ('s1', 's2', 's3')]}
            yield {'start': '', 'actors': [[['maker', n, True]] for n in ('s1', 's1', 's3')]}
            for m in ('g13', 'b17', 'be'):
                yield {'start': '', 'actors': [[['model', m, 'mass', False]]] * 3}
            yield {'start': 'noroot', 'actors': [[['session'], ['setup', 'root']]] * 3}
            yield {'start': 'grid', 'actors': [[['save', 'g', 2., True]], [['save', 'g', 3., True]], [['load', 'g']]]}

    # ---------------------------------------------------------------- stored states
    def places(self):
        r = core.ROOT
        return [os.path.join(r, 'sims'), os.path.join(r, 'simim_resources'), os.path.join(r, 'other'), self.rootfile()]

    def rootfile(self):
        return os.path.join(core.PKG, 'simim', 'resources', 'rootpath.txt')

    def put(self, tmp):
        for i, p in enumerate(self.places()):
            d, n = os.path.dirname(p), os.path.basename(p)
            for f in [n] + [f for f in os.listdir(d) if f.startswith(n + '.') or f.startswith('.' + n)]:
                f = os.path.join(d, f)
                if os.path.isdir(f):
                    shutil.rmtree(f)
                elif os.path.exists(f):
                    os.remove(f)
            src = os.path.join(tmp, str(i))
            if os.path.isdir(src):
                shutil.copytree(src, p)
            elif os.path.exists(src):
                shutil.copy(src, p)

    def take(self, tmp):
        os.mkdir(tmp)
        for i, p in enumerate(self.places()):
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(tmp, str(i)))
            elif os.path.exists(p):
                shutil.copy(p, os.path.join(tmp, str(i)))

    def restore(self, start):
        if 'clean' not in self.made:
            os.makedirs(os.path.join(core.ROOT, 'other'))
            shutil.rmtree(os.path.join(core.ROOT, 'simim_resources', 'galprops'))      # importing simim makes those of behroozi13
            os.mkdir(os.path.join(core.ROOT, 'simim_resources', 'galprops'))
            os.remove(os.path.join(core.ROOT, 'simim_resources', '.paths', 'proppaths.txt'))
            for d in 'ab':
                os.mkdir(os.path.join(core.ROOT, 'other', d))
            for d in ('root2', 'grids', 'cat'):
                os.mkdir(os.path.join(core.ROOT, 'other', d))
            self.made['clean'] = os.path.join(self.template, 'clean')
            self.take(self.made['clean'])
        if start not in self.made:
            self.put(self.made['clean'])
            self.fill(start)
            tmp = os.path.join(self.template, str(len(self.made)))
            self.take(tmp)
            self.made[start] = tmp
        self.put(self.made[start])

    def fill(self, start):
        if start in ('known', 'repeated'):
            env = {}
            for k in ('sim', 'lc', 'prop') * (1 + (start == 'repeated')):
                self.step(['session'])(env)
                self.step(['reg', k, 'TNG100-1-Dark', 'auto'])(env)
        elif start in ('noroot', 'bare', 'otherroot'):
            os.remove(self.rootfile())
            if start != 'noroot':
                shutil.rmtree(os.path.join(core.ROOT, 'simim_resources'))
            if start == 'otherroot':
                self.Paths()._setuppath(os.path.join(core.ROOT, 'other', 'b'))
        elif start == 'cones':
            for n in ('s1', 's2'):
                self.maker(n, True).build_lightcones(1, rng=self.rng(True))
        elif start == 'A':
            self.SimHandler('TNG100-1').make_property(self.prop['A'], use_all_inds=True, write=True)
        elif start.startswith(('table', 'place')):
            w, p, m = start.split()
            self.step(['model', m, p, False])({})
            if w == 'place':
                d = list(self.Paths().props.values())[-1]
                for f in os.listdir(d):
                    os.remove(os.path.join(os.path.realpath(d), f))
        elif start == 'grid':
            self.step(['save', 'g', 1., True])({})
        elif start.startswith('meta'):
            env = {}
            with self.web():
                self.step(['cat', start.split(' ', 1)[1], 'path', [0, 1, 2]])(env)
                self.step(['meta', True])(env)

    # ---------------------------------------------------------------- steps
    def maker(self, name, over):
        if over == 'sphere':
            return self.SphereMaker('TNG300-1', name, redshift_min=0, redshift_max=.0085, minimum_mass=6e11, overwrite=True)
        return self.LCMaker('TNG300-1', name, 6., 1., redshift_min=.055, redshift_max=.075, minimum_mass=6e11, overwrite=over if over in (True, False) else 'check')

    def rng(self, old=False):
        return lm.Script([[.31, .87, .52]] if old else [[.5, .25, .125]], lm.FLIPS[1:] if not old else lm.FLIPS[3:], [[.4, .6, .5]], [.15])

    def grid(self, f):
        g = self.gridder.Grid(2, (1., 2.), (3., 2.), (1., 1.), axunits=['m', 's'], gridunits='K')
        g.init_grid()
        g.grid[...] = f * np.arange(12.).reshape(3, 2, 2)
        return g

    def web(self):
        """The internet."""
        import contextlib

        @contextlib.contextmanager
        def w():
            saved = self.requests.get, self.um.urlretrieve, self.uu.urlretrieve, os.system
            self.requests.get = lambda url, **kw: listing('UniverseMachine-uchuu' if 'chuu' in url else 'UniverseMachine-SMDPL' if 'arizona' in url else 'TNG100-1', [3., 1.5, .5])(url, **kw)

            def retrieve(url, dest=None, *a, **kw):
                with builtins.open(dest, 'wb') as f:
                    for part in 'abc':
                        f.write('{} of {} '.format(part, url).encode())
                        f.flush()
                return dest, None

            def system(cmd):
                words = shlex.split(cmd)
                dest = words[words.index('-P') + 1]
                snap = int(re.search(r'groupcat-(\d+)', cmd).group(1))
                for j in range(3):
                    q = os.path.join(dest, 'fof_subhalo_tab_{:03d}.{}.hdf5'.format(snap, j))
                    if not os.path.exists(q):
                        with builtins.open(q, 'w') as f:
                            f.write('{} {}'.format(snap, j))
                return 0
            self.um.urlretrieve = self.uu.urlretrieve = retrieve
            os.system = system
            try:
                yield
            finally:
                self.requests.get, self.um.urlretrieve, self.uu.urlretrieve, os.system = saved
        return w()

    def prepare(self):
        """In an actor."""
        self.online = self.web()
        self.online.__enter__()

    def step(self, s):
        op = s[0]
        r = core.ROOT
        other = os.path.join(r, 'other')

        def ask(answer):
            builtins.input = lambda *a: answer

        def f(env):
            if op == 'session':
                env['p'] = self.Paths()
            elif op == 'reg':
                p = env['p']
                {'sim': p._newsimpath, 'lc': p._newlcpath, 'prop': p._newproppath}[s[1]](s[2], 'auto' if s[3] == 'auto' else os.path.join(other, s[3]), checkoverwrite=False)
            elif op == 'see':
                p = env['p']
                return (p.root, sorted(p.sims.items()), sorted(p.lcs.items()), sorted(p.props.items()))
            elif op == 'setup':
                ask('y')
                env['p']._setuppath(r if s[1] == 'root' else os.path.join(other, 'root2'))
            elif op == 'maker':
                ask(s[2])
                env['m'] = self.maker(s[1], s[2])
            elif op == 'build':
                env['m'].build_lightcones(1, rng=self.rng())
            elif op == 'add':
                env['m'].add_properties('sfr')
            elif op == 'cone':
                h = self.LCHandler('TNG300-1', s[1], 0)
                return [(k, sig(h.return_property(k, use_all_inds=True))) for k in sorted(h.extract_keys('saved'))]
            elif op == 'sim':
                env['s'] = self.SimHandler('TNG100-1')
            elif op == 'read':
                return sig(env['s'].get_snap(s[1]).return_property(s[2], use_all_inds=True))
            elif op == 'write':
                env['s'].make_property(self.prop2 if s[1] == 'A2' else self.prop[s[1]], use_all_inds=True, overwrite=True, write=True)
            elif op == 'snapwrite':
                env['s'].get_snap(s[1]).make_property(self.prop2 if s[2] == 'A2' else self.prop[s[2]], use_all_inds=True, overwrite=True, write_to_disk=True, overwrite_to_disk=True)
            elif op == 'delete':
                env['s'].delete_property(s[1])
            elif op == 'model':
                if s[1] == 'be':
                    m = self.models['be']()
                    return [sig(m.sfr_function.ev(1., 1e12)), sig(m.stellarmass_function.ev(.5, 1e11))]
                load = s[2] == 'load'
                kw = dict(comp=not load, remake=s[3], **({} if load else dict(haloprop=s[2], halomassmin=1e11)))
                m = self.models[s[1]]('TNG300-1', **({'sm_' + k: v for k, v in kw.items()} if s[1] == 'b17' else kw))
                if not (m.init_lir_function if s[1] == 'g13' else m.init_stellarmass_function):
                    return None
                x = {'vmax': [130., 200.], 'mass': [1.3e12, 4e12]}['mass' if load else s[2]]
                return sig(m.interpolator(([v for v in x], .03)))
            elif op == 'save':
                self.grid(s[2]).save(os.path.join(other, 'grids', s[1]), overwrite=s[3])
            elif op == 'load':
                g = self.gridder.LoadGrid(os.path.join(other, 'grids', s[1] + '.npz'))
                return sig(g.grid)
            elif op == 'cat':
                cls = self.il.IllustrisCatalogs if s[1] == 'TNG100-1' else self.uu.UchuuCatalogs if s[1] == 'UniverseMachine-uchuu' else self.um.UniversemachineCatalogs
                a = ('k',) if s[1] == 'TNG100-1' else ()
                snaps = [10 * i + 2 for i in s[3]] if s[1] == 'TNG100-1' else s[3]
                env['c'] = cls('TNG100-2' if s[1] == 'TNG100-1' and s[2] == 'auto' else s[1], *a, path='auto' if s[2] == 'auto' else os.path.join(other, 'cat'), snaps=snaps, updatepath=False)
            elif op == 'meta':
                env['c'].download_meta(s[1])
                return sorted(env['c'].metadata.items()) if env['c'].metadata is not None else None
            elif op == 'download':
                env['c'].download()
            else:
                raise AssertionError(s)
        return f

    # ---------------------------------------------------------------- observation: {item: value}
    def view(self, case):
        out = {}
        ops = {s[0] for a in case['actors'] for s in a}
        p = self.Paths()
        out['root'] = p.root
        for w in ('sims', 'lcs', 'props'):
            for k, v in getattr(p, w).items():
                out[w, k] = (v, os.path.isdir(v))
        for d, sub in ((p.root, 'simim_resources'),):
            if d:
                for q in ('.paths', 'simulations', 'lightcones', 'galprops'):
                    out['dir', q] = os.path.isdir(os.path.join(d, sub, q))
        if ops & {'maker', 'cone'}:
            for n in ('s1', 's2', 's3'):
                try:
                    h = self.LCHandler('TNG300-1', n, 0)
                except Exception as e:
                    out['cone', n] = 'cannot be opened'
                    continue
                out['cone', n] = repr([(k, sig(h.return_property(k, use_all_inds=True))) for k in sorted(h.extract_keys('saved'))])
        if ops & {'write', 'delete', 'snapwrite', 'read'}:
            s = self.SimHandler('TNG100-1')
            for i in (2, 5, 6):
                h = s.get_snap(i)
                for k in h.extract_keys('saved'):
                    out['snap', i, k] = (sig(h.return_property(k, use_all_inds=True, in_h_units=True)), str(h.properties_units[k]), float(h.properties_h_dependence[k]))
        if ops & {'model'}:
            for m in ('g13', 'b17'):
                out['model', m] = repr([self.step(['model', m, 'load', False])({}), os.path.isdir(p.props.get(m + '_TNG300-1', ''))])
            if ['model', 'be', 'mass', False] in [s for a in case['actors'] for s in a]:
                out['model', 'be'] = repr(self.step(['model', 'be', 'mass', False])({}))
        if ops & {'save', 'load'}:
            d = os.path.join(core.ROOT, 'other', 'grids')
            for f in sorted(os.listdir(d)):
                out['grid', f] = sig(self.gridder.LoadGrid(os.path.join(d, f)).grid) if f.endswith('.npz') else 'left behind'
        if ops & {'cat'}:
            cats = [s for a in case['actors'] for s in a if s[0] == 'cat']
            with self.web():
                env = {}
                self.step(cats[0])(env)
                c = env['c']
                out['meta'] = repr((sorted(c.metadata.items()), c.snap_meta.tolist())) if c.metadata is not None else None
                raw = os.path.join(c.path, 'raw')
                for d, _, fs in os.walk(raw):
                    for f in fs:
                        with open(os.path.join(d, f)) as fh:
                            out['raw', os.path.relpath(os.path.join(d, f), raw)] = fh.read()
        return out

    # ---------------------------------------------------------------- judging
    def run(self, case, ctx):
        try:
            self.explore_case(case, ctx)
        finally:
            if 'clean' in self.made:
                self.put(self.made['clean'])

    def explore_case(self, case, ctx):
        actors = [[self.step(s) for s in a] for a in case['actors']]
        roots = self.places()[:3] + [self.rootfile(), self.rootfile() + '.tmp']
        x = procs.Explorer(lambda: self.restore(case['start']), actors, [core.ROOT, os.path.dirname(self.rootfile())], self.h5py, self.prepare)
        order = [i for i, a in enumerate(actors) for _ in a]
        merges = sorted(set(itertools.permutations(order))) if len(order) <= 6 else [list(m) for m in self.merges([len(a) for a in actors])]
        memo = {}

        def serial(drop=()):
            if drop not in memo:
                out = []
                for m in merges:
                    res = x.serial(m, drop)
                    v = self.view(case)
                    out.append(([[r[:2] if r[0] == 'ok' else ('refused',) for r in a] for a in res], v))
                memo[drop] = out
            return memo[drop]
        refusing = any(s[0] == 'maker' and s[2] in (False, 'n') for a in case['actors'] for s in a)
        for res, _ in serial():
            bad = [r for a in res for r in a if r[0] != 'ok']
            ctx.expect(not bad or refusing or case.get('lock'), 'serial', lambda: '{}: one after the other, a call is refused: {}'.format(case, res))
        n = 0
        for results, trace in x.bounded(case['lock']) if case.get('lock') else x.all():
            n += 1
            ctx.step(len(trace))
            where = lambda: '{}: schedule {}: results {}'.format(case, self.show(trace), [[r if r[0] != 'ok' else 'ok' for r in a] for a in results])
            try:
                v = self.view(case)
            except Exception as e:
                ctx.expect(False, 'unreadable', lambda: '{}: afterwards reading fails with {!r}'.format(where(), e))
            res = [[r[:2] if r[0] == 'ok' else ('refused',) for r in a] for a in results]
            full = serial()
            if any(res == a and v == b for a, b in full):
                continue
            refused = tuple((i, len(a) - 1) for i, a in enumerate(results) if a[-1][0] != 'ok')
            if case.get('lock') and refused and all(results[i][k][4] or case['actors'][i][k][0] in ('cone', 'read') for i, k in refused):
                # refused because the other one had the file open: what it was to do is done or not, item by item
                some = full + serial(tuple((i, j) for i, k in refused for j in range(k, len(actors[i]))))
                for k in sorted(set(v) | {k for _, b in some for k in b}, key=repr):
                    ctx.expect(any(b.get(k) == v.get(k) for _, b in some) or k[0] == 'cone' and v[k] == 'cannot be opened' and 'build' in repr(case), 'mixed', lambda: '{}: {} is {} which no serial execution gives ({})'.format(where(), k, str(v.get(k))[:200], sorted({str(b.get(k))[:200] for _, b in some})))
                for i, a in enumerate(res):
                    for j, q in enumerate(a):
                        ctx.expect(q == ('refused',) or any(len(s[i]) > j and s[i][j] == q for s, _ in some), 'result', lambda: '{}: call {} of process {} returns {}'.format(where(), j, i, str(q)[:300]))
                continue
            bad = [r for i, a in enumerate(results) for r in a if r[0] != 'ok'] if not any(res == a for a, _ in full) else []
            same = [b for a, b in full if a == res] or [b for _, b in full]
            ctx.expect(False, 'failure' if bad else 'state', lambda: '{}: no serial execution has this outcome{}; {}'.format(
                where(), ': a call fails with {}'.format(bad[0][1:4]) if bad else '', '; '.join('{} is {} instead of {}'.format(k, str(v.get(k))[:160], sorted({str(b.get(k))[:160] for b in same}))
                                                                                      for k in sorted(set(v) | {k for b in same for k in b}, key=repr) if all(b.get(k) != v.get(k) for b in same))))
        if n > 1:
            ctx.interesting()
        ctx.evals = n
        ctx.state(repr(case))

    def merges(self, counts):
        if not any(counts):
            yield []
            return
        for i, c in enumerate(counts):
            if c:
                for m in self.merges([k - (j == i) for j, k in enumerate(counts)]):
                    yield [i] + m

    def show(self, trace):
        out = []
        for i, (op, pm), _ in trace:
            what = '{}({})'.format(op, ', '.join(os.path.basename(p) for p, _ in pm)) if op != 'call' else 'call'
            if out and out[-1][0] == i:
                out[-1][1].append(what)
            else:
                out.append((i, [what]))
        return ' | '.join('P{}: {}'.format(i, ' '.join(w)) for i, w in out)[-1500:]


CHECK = C()
