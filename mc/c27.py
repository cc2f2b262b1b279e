"""C27  Abundance-matched models follow their luminosity or mass function; their tables survive any interruption."""
import itertools, math, os, shutil, sys
import numpy as np
from . import core, fake
from .core import Check
from .c26 import integral, dens

Z_B17 = [(.025, .06), (.2, .5), (.5, .8), (.8, 1.1), (1.1, 1.5), (1.5, 2.), (2., 2.5), (2.5, 3.), (3., 3.5), (3.5, 4.5), (4.5, 5.5), (5.5, 6.5), (6.5, 7.5)]
# log10(M*), alpha1, phi1, alpha2, phi2
P_B17 = [(10.64, -.43, 4.18e-3, -1.5, .74e-3), (10.83, -.95, 10 ** -2.63, -1.82, 10 ** -4.01), (10.76, -.57, 10 ** -2.66, -1.49, 10 ** -3.24),
         (10.68, -.33, 10 ** -2.57, -1.49, 10 ** -3.24), (10.66, .19, 10 ** -2.88, -1.49, 10 ** -3.24), (10.51, .82, .64e-3, -1.28, .969e-3),
         (10.60, .07, .45e-3, -1.57, .295e-3), (10.59, -.08, .21e-3, -1.67, .228e-3), (10.83, 0, 0, -1.76, .09e-3),
         (10.96 + math.log10(.61), 0, 0, -1.63, 10 ** -3.94), (10.78 + math.log10(.61), 0, 0, -1.63, 10 ** -4.18),
         (10.49 + math.log10(.61), 0, 0, -1.55, 10 ** -4.16), (10.69 + math.log10(.61), 0, 0, -1.88, 10 ** -5.24)]
H = .7
SNAPS = {'a': [(0, 1.7), (1, .4)], 'b': [(3, 2.6), (5, 1.3), (8, .2)], 'c': [(2, 6.1), (4, 1.)]}
MASS = {'few': [2e11, 9e12, 7e10, 1.3e12, 4e13], 'many': [10 ** (10.2 + 3.5 * (i * 7 % 13) / 12) for i in range(13)]}
PARS = {'default': {}, 'shifted': dict(lf_alpha0=1.05, lf_sigma0=.42, lf_lstar0=10 ** 10.3, lf_phistar0=10 ** -1.9), 'one': dict(lf_phistar0=10 ** -3.1)}


def irlf(z, alpha=1.2, sigma=.5, lstar=10 ** 9.95, phistar=10 ** -2.25):
    l = lstar * (1 + min(z, 2)) ** 3.55 * ((1 + z) / 3) ** (1.62 if z > 2 else 0)
    p = phistar * (1 + min(z, 1.1)) ** -.57 * ((1 + z) / 2.1) ** (-3.92 if z > 1.1 else 0)
    return p, l, alpha, sigma


def smf(z, cosmo, obs):
    zs = np.array([(a + b) / 2 for a, b in Z_B17])
    P = np.array(P_B17)
    d = (cosmo.luminosity_distance(zs) / obs.luminosity_distance(zs)).value
    v = (cosmo.differential_comoving_volume(zs) / obs.differential_comoving_volume(zs)).value
    i = lambda y: float(np.interp(z, zs, y))
    return 10 ** i(P[:, 0] + 2 * np.log10(d)), i(P[:, 1]), i(P[:, 2] / v), i(P[:, 3]), 10 ** i(np.log10(P[:, 4] / v))


class Inverse:
    """Value above which a given fraction of the objects of a distribution lies."""

    def __init__(self, kind, p):
        top = 60 * p['x0'] if kind == 'double' else p['xmin'] * 1e14
        t = np.linspace(math.log(p['xmin']), math.log(top), 40001)
        with np.errstate(all='ignore'):
            f = dens(kind, p, np.exp(t))
        s = (f[1:] + f[:-1]) / 2 * (t[1] - t[0])
        self.total = float(s.sum())
        self.t, self.above = t, np.append(np.cumsum(s[::-1])[::-1], 0) / self.total

    def __call__(self, frac):
        return math.exp(np.interp(frac, self.above[::-1], self.t[::-1]))


class Relation:
    """Reference relation for one snapshot."""

    def __init__(self, values, inv, number):
        self.o = sorted(values)
        n = len(self.o)
        self.inv = inv
        self.low1 = max(0., 1 - n / number)
        self.low2 = max(0., 1 - number / n)

    def blank(self, p, prop):
        """Whether nothing may be matched close to the value (the interpolation between snapshots then gives nan)."""
        hi = p * 1.01 if prop == 'mass' else p + 1.6
        lo = p * .99 if prop == 'mass' else p - 1.6
        v = [self(lo), self(hi)]
        return self.low2 > 0 and (lo <= self.o[0] or any(x is not None and math.isnan(x) for x in v))

    def __call__(self, p):
        """None outside of the matched range, nan where nothing is matched."""
        o = self.o
        if not o[0] < p < o[-1]:
            return None
        k = max(k for k in range(len(o)) if o[k] <= p)
        f = (k + (p - o[k]) / (o[k + 1] - o[k])) / (len(o) - 1)
        c = self.low1 + (1 - self.low1) * f
        if c <= self.low2:
            return math.nan
        return self.inv((1 - c) / (1 - self.low2))


class Crash:
    """Kill the process at (or within, or after) the nth storage operation."""

    def __init__(self, at, mode):
        self.at, self.mode, self.n, self.inside = at, mode, 0, False

    def wrap(self, fn, kind):
        def call(*a, **k):
            if self.inside:
                return fn(*a, **k)
            self.inside = True
            try:
                self.n += 1
                if self.n == self.at:
                    if self.mode != 'before':
                        fn(*a, **k)
                        if self.mode == 'torn' and kind == 'save':
                            p = a[0] if a else k.get('file')
                            if hasattr(p, 'write'):
                                p.flush()
                                p = p.name
                            elif not str(p).endswith('.npy'):
                                p = str(p) + '.npy'
                            os.truncate(p, os.path.getsize(p) // 2)
                    os._exit(7)
                return fn(*a, **k)
            finally:
                self.inside = False
        return call

    def install(self):
        np.save = self.wrap(np.save, 'save')
        np.savez = self.wrap(np.savez, 'save2')
        for n in ('remove', 'unlink', 'replace', 'rename'):
            setattr(os, n, self.wrap(getattr(os, n), n))
        shutil.move = self.wrap(shutil.move, 'move')


def child(fn, crash=None):
    """Run fn in a forked process; its exit status (0 done, 7 killed, 1 error)."""
    pid = os.fork()
    if pid == 0:
        r = 1
        try:
            if crash is not None:
                crash.install()
            fn()
            r = 0
        except BaseException as e:
            r = 1
        finally:
            os._exit(r)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


class C(Check):
    id = 'C27'
    technique = 'exhaustive enumeration of catalogues x models x settings vs. inversion of the luminosity function by quadrature; exhaustive kill points (before/within/after each storage operation) of every table-writing history'
    rule = 'one case = one catalogue and model setting, or one history of constructions killed at every point; non-trivial if two snapshots differ'
    assumptions = ('luminosities above the brightest and below the faintest matched halo are not judged', 'a kill keeps what earlier storage operations wrote')
    chunk = 1

    def setup(self):
        import h5py
        from astropy.cosmology import FlatLambdaCDM
        from simim.galprops import sfr_ir, sfr_bethermin17, sfr_behroozi13
        from simim import _paths
        self.h5py, self.ir, self.b17, self.be, self.paths = h5py, sfr_ir, sfr_bethermin17, sfr_behroozi13, _paths
        self.obs = FlatLambdaCDM(H0=70, Om0=.3)

    def cases(self, tier):
        deep = tier == 'thorough'
        for s in SNAPS:
            yield {'scaling': s}
        yield {'errors': 0}
        for s, m, box, prop in itertools.product(SNAPS, MASS, (3., 40.) if not deep else (1., 3., 12., 40., 205.), ('mass', 'vmax', 'auto', 'auto-mass')):
            for cut in (1e10, 1e11) if not deep else (1e10, 5e10, 1e11, 3e11):
                for lmin in (10 ** 8.5, 1e9):
                    for pars in PARS if deep or (cut, lmin) == (1e10, 1e9) else ('shifted',):
                        yield {'model': 'g13', 'snaps': s, 'mass': m, 'box': box, 'prop': prop, 'cut': cut, 'lmin': lmin, 'pars': pars}
                yield {'model': 'b17', 'snaps': s, 'mass': m, 'box': box, 'prop': prop, 'cut': cut}
        ops = ['load', 'compA', 'compB', 'remakeA', 'remakeB']
        for model in ('g13', 'b17'):
            for n in (1, 2, 3) if deep else (1, 2):
                for hist in itertools.product(ops, repeat=n):
                    if hist[-1] != 'load':
                        yield {'kill': model, 'hist': hist}
        yield {'behroozi': 0}

    # ---- simulations
    def sim(self, case, ctx, vmax=True):
        snaps = SNAPS[case['snaps']]
        halos = {}
        for j, (idx, z) in enumerate(snaps):
            m = [x * (1 + .3 * j) for x in MASS[case['mass']]][:12 if j else None]
            d = {'mass': [x * H for x in m]}
            for k in ('pos_x', 'pos_y', 'pos_z'):
                d[k] = [.1 + .05 * i for i in range(len(m))]
            if vmax:
                d['vmax'] = [200 * (x / 1e12) ** .2 * (1.3 if i % 3 == 1 else 1.) for i, x in enumerate(m)]
            halos[idx] = d
        if os.path.exists('simdir'):
            shutil.rmtree(os.path.join(core._SCRATCH, 'simdir'))
        p = os.path.join(core._SCRATCH, 'simdir')
        fake.write_sim(self.h5py, p, snaps, halos, box=case['box'], h=H, units={'vmax': ('km/s', 0)})
        fake.register('TNG100-2', p)
        return snaps, halos

    def clear(self):
        for n in ('g13_TNG100-2', 'b17_TNG100-2', 'behroozi13'):
            pp = self.paths._SimIMPaths()
            if n in pp.props and os.path.isdir(pp.props[n]):
                for f in os.listdir(pp.props[n]):
                    os.remove(os.path.join(os.path.realpath(pp.props[n]), f))

    def relations(self, model, snaps, halos, box, prop, cut, lmin=None, pars={}):
        out = {}
        for idx, z in snaps:
            d = halos[idx]
            m = np.asarray(d['mass'], dtype='f').astype(float) / H
            vals = m if prop == 'mass' else np.asarray(d['vmax'], dtype='f').astype(float)
            vals = vals[m >= cut]
            if model == 'g13':
                p, l, a, s = irlf(z, **{k[3:-1]: v for k, v in pars.items()})
                inv = Inverse('modified', dict(phi0=p, x0=l, alpha=a, sigma=s, xmin=lmin))
            else:
                ms, a1, p1, a2, p2 = smf(z, fake.cosmology(H, .3, .05), self.obs)
                inv = Inverse('double', dict(x0=ms, alpha1=a1, phi1=p1, alpha2=a2, phi2=p2, xmin=1e5))
            out[float(np.float32(z))] = Relation(list(vals), inv, inv.total * (box / H) ** 3)
        return out

    def make(self, model, prop, cut, lmin, pars, **kw):
        if model == 'g13':
            return self.ir.g13irlf_base('TNG100-2', haloprop=prop, halomassmin=cut, lirmin=lmin, **pars, **kw)
        return self.b17.bethermin17_base('TNG100-2', sm_haloprop=prop, sm_halomassmin=cut, **{'sm_' + k: v for k, v in kw.items()})

    def judge(self, ctx, what, fn, rel, prop, quiet=False):
        """Compare at points inside the matched range of every snapshot; returns the first difference or None."""
        for z, r in rel.items():
            pts = []
            for a, b in zip(r.o, r.o[1:]):
                pts += [a * (b / a) ** f for f in (.08, .5, .83)] + [b]
            want = []
            for p in pts:
                lo, hi = (p * .99, p * 1.01) if prop == 'mass' else (p - 1.6, p + 1.6)
                want.append((r(lo), r(hi)))
            got = np.asarray(fn(np.array(pts), np.full(len(pts), z)), dtype=float)
            ctx.step(len(pts))
            for p, g, (a, b) in zip(pts, got, want):
                if a is None or b is None or math.isnan(a) != math.isnan(b) or any(o.blank(p, prop) for o in rel.values() if o is not r):
                    continue
                if math.isnan(a):
                    good = math.isnan(g)
                else:
                    good = a * .985 <= g <= b * 1.015
                    one = np.asarray(fn(p, z), dtype=float)
                    good = good and one.size == 1 and abs(float(one.reshape(())) - g) <= 1e-9 * abs(g)
                if not good:
                    return '{}: value at {}={} z={} is {}, expected {} to {}'.format(what, prop, p, z, g, a, b)
        zs = sorted(rel)
        for a, b in zip(zs, zs[1:]):
            for f in (.25, .5):
                lo = max(rel[a].o[0], rel[b].o[0])
                hi = min(rel[a].o[-1], rel[b].o[-1])
                p = lo + (hi - lo) * .4
                v = [float(np.asarray(fn(p, z)).reshape(())) for z in (a, a + f * (b - a), b)]
                ctx.step(3)
                if not any(map(math.isnan, v)) and abs(v[1] - (v[0] + f * (v[2] - v[0]))) > 1e-6 * abs(v[1]):
                    return '{}: value at {}={} between z={} and z={} is {}, not between {} and {}'.format(what, prop, p, a, b, v[1], v[0], v[2])

    def run(self, case, ctx):
        for k in ('scaling', 'errors', 'kill', 'behroozi', 'model'):
            if k in case:
                return getattr(self, 'run_' + k)(case, ctx)

    def run_model(self, case, ctx):
        self.clear()
        vmax = case['prop'] != 'auto-mass'
        snaps, halos = self.sim(case, ctx, vmax)
        arg = 'auto' if case['prop'] == 'auto-mass' else case['prop']
        prop = 'vmax' if arg == 'vmax' or arg == 'auto' and vmax else 'mass'
        pars = PARS[case.get('pars', 'default')]
        rel = self.relations(case['model'], snaps, halos, case['box'], prop, case['cut'], case.get('lmin'), pars)
        m = self.make(case['model'], arg, case['cut'], case.get('lmin'), pars, comp=True)
        fns = [('lir', m.lir, 1), ('sfr', lambda p, z: m.sfr(p, z) * 1e10, 1), ('sfr with a factor', lambda p, z: m.sfr(p, z, lir_to_sfr=3.) / 3., 1)] if case['model'] == 'g13' else [('stellarmass', m.stellarmass, 1)]
        for n, fn, _ in fns:
            bad = self.judge(ctx, n, fn, rel, prop)
            ctx.expect(bad is None, 'relation', lambda: '{}: {}'.format(case, bad))
        # a later session loads the same relation, whatever arguments it gives
        again = self.make(case['model'], 'mass', 3e10, 1e8, {'lir_to_sfr': 7.} if case['model'] == 'g13' else {})
        bad = self.judge(ctx, 'reloaded', again.lir if case['model'] == 'g13' else again.stellarmass, rel, prop)
        ctx.expect(bad is None, 'reload', lambda: '{}: {}'.format(case, bad))
        if case['model'] == 'g13':
            bad = self.judge(ctx, 'sfr with another factor', lambda p, z: again.sfr(p, z) / 7., rel, prop)
            ctx.expect(bad is None, 'factor', lambda: '{}: {}'.format(case, bad))
        ctx.interesting(len(rel) > 1)
        ctx.state(tuple(sorted((k, str(v)) for k, v in case.items())))

    def run_scaling(self, case, ctx):
        self.clear()
        zs = [0., .3, 1.0999, 1.1, 1.1001, 1.7, 1.9999, 2., 2.0001, 3.7, 7]
        obj = {n: self.ir.g13irlf_base('TNG100-2', **p) for n, p in PARS.items()}
        args = {'alpha0': 1.3, 'sigma0': .3, 'lstar0': 1e9, 'phistar0': 1e-3}
        for n, o in obj.items():
            base = {k[3:-1]: v for k, v in PARS[n].items()}
            for sub in itertools.chain.from_iterable(itertools.combinations(args, k) for k in range(5)):
                kw = {k: args[k] for k in sub}
                ref = dict(base, **{k[:-1]: v for k, v in kw.items()})
                want = np.array([irlf(z, **ref) for z in zs])
                for form in ('array', 'list', 'scalar'):
                    if form == 'scalar':
                        got = np.array([[float(v) for v in o.get_irlf_pars(z, **kw)] for z in zs])
                    else:
                        got = np.array([np.asarray(v, dtype=float) for v in o.get_irlf_pars(np.array(zs) if form == 'array' else list(zs), **kw)]).T
                    ctx.step()
                    ctx.expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-9), 'scaling', lambda: 'parameters ({}, {}, {}): {} expected {}'.format(n, kw, form, got, want))
        b = self.b17.bethermin17_base('TNG100-2')
        for om, h in ((.3, .7), (.3089, .6774), (.25, .73)):
            c = fake.cosmology(h, om, .05)
            for z in (0., .04, .1, .35, .5, 1.2, 2.9, 3.6, 5.5, 6.9, 7., 9.):
                got = [float(v) for v in b.b17_smfpars(z, c)]
                want = smf(z, c, self.obs)
                ctx.step()
                ctx.expect(np.allclose(got, want, rtol=1e-8, atol=1e-12), 'smf', lambda: 'stellar mass function at z={} (h={}): {} expected {}'.format(z, h, got, want))
        ctx.interesting()
        ctx.state(case['scaling'])

    def run_errors(self, case, ctx):
        self.clear()
        self.sim({'snaps': 'a', 'mass': 'few', 'box': 3.}, ctx)

        def raises(fn, exc, what):
            ctx.step()
            try:
                fn()
            except exc:
                return
            ctx.expect(False, 'errors', '{} does not raise {}'.format(what, exc.__name__))
        g, b = self.ir.g13irlf_base('TNG100-2'), self.b17.bethermin17_base('TNG100-2')
        raises(lambda: g.lir(1e12, 1.), ValueError, 'lir without a relation')
        raises(lambda: g.sfr(1e12, 1.), ValueError, 'sfr without a relation')
        raises(lambda: b.stellarmass(1e12, 1.), ValueError, 'stellarmass without a relation')
        raises(lambda: self.ir.g13irlf_base('TNG100-2', comp=True, haloprop='halomass'), ValueError, 'unknown haloprop')
        raises(lambda: self.b17.bethermin17_base('TNG100-2', sm_comp=True, sm_haloprop='halomass'), ValueError, 'unknown haloprop')
        raises(lambda: self.ir.g13irlf_base('nosuchsim'), NameError, 'unknown simulation')
        raises(lambda: self.b17.bethermin17_base('nosuchsim'), NameError, 'unknown simulation')
        raises(lambda: self.ir.g13irlf_base('TNG100-2').lir(1e12, 1.), ValueError, 'lir after a failed computation')
        ctx.interesting()

    SET = {'A': dict(prop='mass', cut=1e10, lmin=10 ** 8.5, pars={}), 'B': dict(prop='vmax', cut=1.5e11, lmin=1e9, pars=PARS['shifted'])}

    def run_kill(self, case, ctx):
        model, hist = case['kill'], case['hist']
        snaps, halos = self.sim({'snaps': 'a', 'mass': 'few', 'box': 12.}, ctx)
        rels = {k: self.relations(model, snaps, halos, 12., **s) for k, s in self.SET.items()}

        def do(op):
            s = self.SET[op[-1] if op != 'load' else 'A']
            return self.make(model, comp=op != 'load', remake=op.startswith('remake'), **s)

        def holds(m, which):
            return self.judge(ctx, which, m.lir if model == 'g13' else m.stellarmass, rels[which], self.SET[which]['prop'])

        def observe(may, what):
            """What a new session finds."""
            m = do('load')
            ctx.step()
            try:
                (m.lir if model == 'g13' else m.stellarmass)(np.array([1e12]), np.array([1.]))
                init = True
            except ValueError:
                init = False
            if not init:
                ctx.expect(None in may, 'lost', lambda: '{}: no relation is found, expected that of {}'.format(what, may))
                return None
            for k in may:
                if k is not None and holds(m, k) is None:
                    return k
            ctx.expect(False, 'mixed', lambda: '{}: the relation found is none of {}: {}'.format(what, may, [holds(m, k) for k in may if k]))

        def after(op, st):
            return op[-1] if op.startswith('remake') or op.startswith('comp') and st is None else st
        for mode in ('before', 'torn', 'after'):
            n = 0
            while True:
                n += 1
                self.clear()
                st = None
                for op in hist[:-1]:
                    do(op)
                    st = after(op, st)
                    ctx.step()
                op = hist[-1]
                if n == 1:
                    observe({st}, 'after {}'.format(hist[:-1]))
                r = child(lambda: do(op), Crash(n, mode))
                ctx.step()
                ctx.expect(r in (0, 7), 'fails', lambda: '{} after {} fails'.format(op, hist[:-1]))
                new = after(op, st)
                if r == 0:
                    observe({new}, 'after {}'.format(hist))
                    break
                what = '{} killed {} storage operation {} after {}'.format(op, mode, n, hist[:-1])
                st = observe({st, new, None}, what)
                ctx.state((model, hist, mode, n, st))
                m = do('compB')
                bad = holds(m, st or 'B')
                ctx.expect(bad is None, 'mixed', lambda: '{}, then computed: {}'.format(what, bad))
                m = do('remakeA')
                bad = holds(m, 'A')
                ctx.expect(bad is None, 'mixed', lambda: '{}, then remade: {}'.format(what, bad))
                ctx.expect(n < 60, 'harness', 'too many storage operations')
        ctx.interesting(n > 1)

    def run_behroozi(self, case, ctx):
        from . import galmodel as gm
        ref = gm.Behroozi(os.path.join(core.REPO, 'simim', 'resources', 'behroozi13_release.dat'))
        zs, ms = np.array([.1, 2.5, 6.]), np.array([3e11, 2e12, 5e13])
        want = [np.array([ref.value(k, z, m) for z, m in zip(zs, ms)]) for k in (0, 1)]
        for mode in ('before', 'torn', 'after'):
            n = 0
            while True:
                n += 1
                self.clear()
                r = child(self.be.behroozi13_base, Crash(n, mode))
                ctx.step()
                ctx.expect(r in (0, 7), 'fails', 'the first construction of behroozi13_base fails')
                what = 'behroozi13 setup killed {} storage operation {}'.format(mode, n)
                b = self.be.behroozi13_base()
                for k, fn in enumerate((b.sfr, b.stellarmass)):
                    got = fn(zs, ms, scatter=False)
                    ctx.expect(np.allclose(got, want[k], rtol=2e-4), 'behroozi', lambda: '{}: {} expected {}'.format(what, got, want[k]))
                ctx.state(('behroozi', mode, n))
                if r == 0:
                    break
        ctx.interesting()


CHECK = C()
