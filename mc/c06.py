"""C06  Snapshot metadata tiles cosmic time without gaps, and every redshift maps to the snapshot that covers it."""
import itertools, os, shutil
import numpy as np
from . import core, fake
from .core import Check, Violation

ZS = [6.0, 3.0, 1.5, 0.5, 0.0]


class Resp:
    def __init__(self, text=None, js=None):
        self.text, self._js = text, js

    def raise_for_status(self):
        pass

    def json(self):
        return self._js


def raw_names(fam, zs):
    """Raw file of each snapshot, or None if they are not named after the redshift."""
    if fam == 'UniverseMachine-uchuu':
        return ['Uchuu_UM_z{:.2f}_data1.h5'.format(z).replace('.', 'p', 1) for z in zs]
    if fam.startswith('UniverseMachine'):
        return ['sfr_catalog_{:.6f}.{}'.format(1 / (1 + z), 'txt' if 'Bolshoi' in fam else 'bin') for z in zs]
    return None


def listing(fam, zs, order=None):
    """Stand-in for requests.get: the listing of the snapshots on the web, in any order."""
    n = len(zs)
    order = range(n) if order is None else order
    names = raw_names(fam, zs)
    if fam == 'UniverseMachine-uchuu':
        html = ' '.join('<td><a href="{0}">{0}</a></td> <td><a href="{1}">{1}</a></td>'.format(
            names[i], names[i].replace('data1', 'data2')) for i in order)
        return lambda url, **kw: Resp(text='<html> ' + html + ' </html>')
    if names:
        html = ' '.join('<td><a href="{0}">{0}</a></td> <td>x</td>'.format(names[i]) for i in order)
        return lambda url, **kw: Resp(text='<html> ' + html + ' </html>')
    sim = {'name': fam, 'boxsize': 75000, 'num_snapshots': n, 'cosmology': 'P', 'omega_0': 0.31, 'omega_L': 0.69,
           'omega_B': 0.05, 'hubble': 0.7, 'num_files_groupcat': 3}
    lst = [{'number': 10 * i + 2, 'redshift': zs[i]} for i in order]
    return lambda url, **kw: Resp(js=lst if url.rstrip('/').endswith('snapshots') else sim)


class C(Check):
    id = 'C06'
    technique = 'exhaustive enumeration of snapshot sets x listing orders x requested subsets through the real catalogue classes, and of redshift queries through the real SimHandler, vs. an independent cosmology model'
    rule = 'one case = (simulation family, snapshot redshifts, listing order, requested subset); non-trivial with at least two snapshots'
    assumptions = ('the web listing/API is a stand-in with the real format',)
    chunk = 2

    def setup(self):
        import h5py, requests
        from astropy.cosmology import z_at_value
        from simim.siminterface import universemachine, uchuu, illustris, SimHandler
        self.h5py, self.requests = h5py, requests
        self.um, self.uu, self.il, self.SH = universemachine, uchuu, illustris, SimHandler
        self.mods = (universemachine, uchuu, illustris)

    def cases(self, tier):
        deep = tier == 'thorough'
        zsets = [[6.0], [0.0], [6.0, 0.0], [3.0, 0.5], [6.0, 1.5, 0.0], [3.0, 1.5, 0.5], [6.0, 5.9, 0.02]]
        if deep:
            zsets += [[6.0, 3.0, 1.5, 0.5], [6.0, 3.0, 0.5, 0.0]]
        for fam in ('UniverseMachine-BolshoiPlanck', 'UniverseMachine-SMDPL', 'UniverseMachine-MDPL2', 'UniverseMachine-uchuu', 'TNG100-1', 'Illustris-1'):
            for zs in zsets:
                n = len(zs)
                subs = [c for r in range(1, n + 1) for c in itertools.combinations(range(n), r)]
                for order in itertools.permutations(range(n)):
                    if not deep and fam in ('UniverseMachine-MDPL2', 'UniverseMachine-BolshoiPlanck') and list(order) != sorted(order):
                        continue
                    for sub in subs:
                        if list(order) != sorted(order) and len(sub) != n and not deep:
                            continue
                        yield {'fam': fam, 'zs': zs, 'order': list(order), 'sub': list(sub)}
        # handler lookups on index sets with gaps
        for zs in zsets:
            n = len(zs)
            for gap in (0, 1, 2):
                yield {'fam': 'handler', 'zs': zs, 'idx': [i * (1 + gap) + gap for i in range(n)], 'init': gap == 1}

    # -- reference
    def reference(self, cosmo, zs):
        """[(redshift_min, redshift_max)] for redshifts in decreasing order, boundaries halfway in age."""
        mids = []
        for a, b in zip(zs, zs[1:]):
            t = 0.5 * (cosmo.age(a).value + cosmo.age(b).value)
            lo, hi = b, a
            for _ in range(60):
                m = 0.5 * (lo + hi)
                if cosmo.age(m).value > t:
                    lo = m
                else:
                    hi = m
            mids.append(0.5 * (lo + hi))
        top = [zs[0]] + mids
        bot = mids + [0.]
        return list(zip(bot, top))

    def run(self, case, ctx):
        if case['fam'] == 'handler':
            return self.run_handler(case, ctx)
        base = core.fresh_dir(ctx.scratch)
        zs, order, fam = case['zs'], case['order'], case['fam']
        n = len(zs)
        saved = [(m, m.requests) for m in self.mods] + [(None, None)]
        rget = self.requests.get
        try:
            names = raw_names(fam, zs)
            get = listing(fam, zs, order)
            self.requests.get = get
            number = (lambda i: 10 * i + 2) if names is None else (lambda i: i)
            sub = [number(i) for i in case['sub']]
            mk = {'UniverseMachine-uchuu': self.uu.UchuuCatalogs}.get(fam, self.um.UniversemachineCatalogs)
            if names is None:
                make = lambda: self.il.IllustrisCatalogs(fam, 'k', path=base, snaps=sub, updatepath=False)
            else:
                make = lambda: mk(fam, path=base, snaps=sub, updatepath=False)
            cat = make()
            cat.download_meta()
            ctx.step()
            self.requests.get = lambda *a, **k: (_ for _ in ()).throw(Violation('network', 'asked the network again for stored metadata'))
            cat2 = make()                       # a later session
            cat2.download_meta()
            if names is not None:
                # the snapshot's raw file must be the one with its redshift
                for i in case['sub']:
                    f = list(cat2._get_rawsnapfiles(i))[0]
                    ctx.expect(f == names[i], 'rawfile', lambda: '{}: snapshot {} (z={}) reads {}'.format(case, i, zs[i], f))
            md = cat2.metadata
            cosmo = fake.cosmology(md['cosmo_h'], md['cosmo_omega_matter'], md['cosmo_omega_baryon'])
            rows = np.load(os.path.join(base, 'meta_snaps.npy'))
            for r in (rows, cat.snap_meta, cat2.snap_meta):
                self.check_rows(ctx, case, r, sub, [zs[i] for i in case['sub']], cosmo, md['cosmo_h'])
            if names is None:
                ctx.expect(abs(md['box_edge'] - 75.) < 1e-9 and md['groupcat_number_files'] == 3, 'meta', lambda: str(md))
            else:
                box = {'UniverseMachine-BolshoiPlanck': 250, 'UniverseMachine-SMDPL': 400, 'UniverseMachine-MDPL2': 1000, 'UniverseMachine-uchuu': 2000}[fam]
                ctx.expect(md['box_edge'] == box, 'meta', lambda: str(md))
            ctx.state((case['fam'], case['zs'], case['sub'], [tuple(map(float, r)) for r in rows]))
            if len(sub) > 1:
                ctx.interesting()
        finally:
            self.requests.get = rget
            shutil.rmtree(base, ignore_errors=True)

    def check_rows(self, ctx, case, rows, sub, zs, cosmo, h):
        ctx.expect([int(i) for i in rows['index']] == sub, 'index', lambda: '{}: rows {} expected {}'.format(case, rows['index'], sub))
        close = lambda a, b, t=2e-5: abs(float(a) - float(b)) <= t * max(1e-3, abs(float(b)))
        ref = self.reference(cosmo, zs)
        for r, z, (lo, hi) in zip(rows, zs, ref):
            ctx.step()
            want = {'redshift': z, 'redshift_min': lo, 'redshift_max': hi,
                    'time_start': cosmo.age(hi).value, 'time_end': cosmo.age(lo).value,
                    'distance_min': cosmo.comoving_distance(lo).value * h if lo > 0 else 0.,
                    'distance_max': cosmo.comoving_distance(hi).value * h if hi > 0 else 0.}
            want['transverse_distance_min'] = want['distance_min']
            want['transverse_distance_max'] = want['distance_max']
            for k, v in want.items():
                ctx.expect(close(r[k], v), 'tiling:' + k, lambda: '{}: snapshot {} {} = {} expected {}'.format(case, r['index'], k, r[k], v))
        for a, b in zip(rows, rows[1:]):
            ctx.expect(a['redshift_min'] == b['redshift_max'] and a['distance_min'] == b['distance_max'] and a['time_end'] == b['time_start'],
                       'gap', lambda: '{}: gap between snapshots {} and {}'.format(case, a['index'], b['index']))

    def run_handler(self, case, ctx):
        base = core.fresh_dir(ctx.scratch)
        try:
            snaps = list(zip(case['idx'], case['zs']))
            halos = {i: {k: [1.] for k in ('pos_x', 'pos_y', 'pos_z')} | {'mass': [1e10 * (i + 1)]} for i in case['idx']}
            rows = fake.write_sim(self.h5py, base, snaps, halos)
            fake.register('TNG100-1', base)
            sh = self.SH('TNG100-1', init_snaps=case['init'])
            edges = sorted({float(r['redshift_min']) for r in rows} | {float(r['redshift_max']) for r in rows})
            qs = sorted(set(edges) | {(a + b) / 2 for a, b in zip(edges, edges[1:])} | {float(r['redshift']) for r in rows}
                        | {e * (1 - 1e-4) for e in edges} | {e * (1 + 1e-4) for e in edges[:-1]})
            for z in qs:
                ctx.step()
                ok = [int(r['index']) for r in rows if r['redshift_min'] <= np.float32(z) <= r['redshift_max']]
                got = int(sh.z_to_snap(z))
                ctx.expect(got in ok, 'lookup', lambda: 'z={} -> snapshot {} but {} cover(s) it'.format(z, got, ok))
                s = sh.get_snap_from_z(z)
                m = s.return_property('mass', in_h_units=True)
                ctx.expect(len(m) == 1 and m[0] == np.float32(1e10 * (got + 1)) and s.redshift == rows[rows['index'] == got][0]['redshift'],
                           'lookup', lambda: 'get_snap_from_z({}) is not snapshot {}'.format(z, got))
                ctx.state((case['idx'], z, got))
            for z in (edges[-1] + 0.1, -0.1, edges[-1] * 2 + 1):
                try:
                    g = sh.z_to_snap(z)
                except ValueError:
                    continue
                ctx.fail('range', 'z={} outside {} accepted -> {}'.format(z, (edges[0], edges[-1]), g))
            for i in range(max(case['idx']) + 2):
                try:
                    r = sh.extract_snap_meta(i)
                    ctx.expect(i in case['idx'] and r['index'] == i, 'meta', lambda: 'extract_snap_meta({}) -> {}'.format(i, r))
                except ValueError:
                    ctx.expect(i not in case['idx'], 'meta', lambda: 'extract_snap_meta({}) refused'.format(i))
            if len(qs) > 3:
                ctx.interesting()
        finally:
            shutil.rmtree(base, ignore_errors=True)


CHECK = C()
