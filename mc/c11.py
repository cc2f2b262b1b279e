"""C11  Raw catalogue loaders: every supported raw format ends up, value by value, under its documented
name, unit and h dependence."""
import itertools, os, shutil, struct
import numpy as np
from . import core, rawsim as rs
from .core import Check

# ---- UniverseMachine -------------------------------------------------------------------------
ASCII = ['id', 'descid', 'upid', 'flags', 'uparent_dist', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'm', 'v', 'mp', 'vmp', 'r',
         'rank1', 'rank2', 'ra', 'rarank', 'sm', 'icl', 'sfr', 'obs_sm', 'obs_sfr', 'obs_ssfr', 'smhm', 'obs_uv']
# formatted name: (raw column, factor as function of h, units, h dependence)
one, hh, milli = (lambda h: 1.), (lambda h: h), (lambda h: 1e-3)
UM = {'pos_x': ('x', one, 'Mpc/h', -1), 'pos_y': ('y', one, 'Mpc/h', -1), 'pos_z': ('z', one, 'Mpc/h', -1),
      'v_x': ('vx', one, 'km/s', 0), 'v_y': ('vy', one, 'km/s', 0), 'v_z': ('vz', one, 'km/s', 0),
      'mass': ('m', one, 'Msun/h', -1), 'halo_id': ('id', one, 'None', 0), 'descendent_id': ('descid', one, 'None', 0),
      'parent_id': ('upid', one, 'None', 0), 'vmax': ('v', one, 'km/s', 0), 'mass_peak': ('mp', one, 'Msun/h', -1),
      'vmax_peak': ('vmp', one, 'km/s', 0), 'r': ('r', milli, 'Mpc/h', -1), 'Rank1': ('rank1', one, 'None', 0),
      'm_stars': ('sm', hh, 'Msun/h', -1), 'icl': ('icl', hh, 'Msun/h', -1), 'sfr': ('sfr', one, 'Msun/yr', 0),
      'm_stars_obs': ('obs_sm', hh, 'Msun/h', -1), 'sfr_obs': ('obs_sfr', one, 'Msun/yr', 0), 'phot_uv_obs': ('obs_uv', one, 'mag', 0)}
UM_ASCII = dict(UM, ssfr_obs=('obs_ssfr', one, None, 0), stellar_to_halo_mass_ratio=('smhm', one, 'None', 0))
UM_ASCII['mass'] = ('m', hh, 'Msun/h', -1)
UM_ASCII['mass_peak'] = ('mp', hh, 'Msun/h', -1)
UM_BIN = dict(UM, uv_attenuation=('a_uv', one, 'mag', 0))
BIN = ['id', 'descid', 'upid', 'flags', 'uparent_dist', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'vmp', 'lvmp', 'mp', 'm', 'v', 'r',
       'rank1', 'rank2', 'ra', 'rarank', 'a_uv', 'sm', 'icl', 'sfr', 'obs_sm', 'obs_sfr', 'obs_uv', 'empty']
UU_FILE = {1: ['id', 'upid', 'Mvir', 'sm', 'icl', 'sfr', 'obs_sm', 'obs_sfr', 'obs_uv'], 2: ['x', 'y', 'z'],
           3: ['desc_id', 'vx', 'vy', 'vz', 'Mpeak', 'Vmax_Mpeak', 'vmax', 'A_UV']}
UU = {'pos_x': ('x', one, 'Mpc/h', -1), 'pos_y': ('y', one, 'Mpc/h', -1), 'pos_z': ('z', one, 'Mpc/h', -1),
      'v_x': ('vx', one, 'km/s', 0), 'v_y': ('vy', one, 'km/s', 0), 'v_z': ('vz', one, 'km/s', 0), 'mass': ('Mvir', one, 'Msun/h', -1),
      'halo_id': ('id', one, 'None', 0), 'descendent_id': ('desc_id', one, 'None', 0), 'parent_id': ('upid', one, 'None', 0),
      'vmax': ('vmax', one, 'km/s', 0), 'mass_peak': ('Mpeak', one, 'Msun/h', -1), 'vmax_peak': ('Vmax_Mpeak', one, 'km/s', 0),
      'm_stars': ('sm', hh, 'Msun/h', -1), 'icl': ('icl', hh, 'Msun/h', -1), 'sfr': ('sfr', one, 'Msun/yr', 0),
      'm_stars_obs': ('obs_sm', hh, 'Msun/h', -1), 'sfr_obs': ('obs_sfr', one, 'Msun/yr', 0), 'phot_uv_obs': ('obs_uv', one, 'mag', 0),
      'uv_attenuation': ('A_UV', one, 'mag', 0)}

# ---- Illustris / TNG (https://www.tng-project.org/data/docs/specifications/#sec2b) ---------------
K, M10, I = 1e-3, 1e10, 1.
ILL = {}


def vec(raw, names, f, u, e):
    for i, n in enumerate(names):
        if n:
            ILL[n] = (raw, i, f, u, e)


def sca(raw, n, f, u, e):
    ILL[n] = (raw, None, f, u, e)


vec('SubhaloPos', ['pos_x', 'pos_y', 'pos_z'], K, 'Mpc/h', -1)
sca('SubhaloHalfmassRad', 'r_hm', K, 'Mpc/h', -1)
sca('SubhaloMass', 'mass', M10, 'Msun/h', -1)
vec('SubhaloVel', ['v_x', 'v_y', 'v_z'], I, 'km/s', 0)
BASIC = set(ILL)
vec('SubhaloCM', ['cm_x', 'cm_y', 'cm_z'], K, 'Mpc/h', -1)
sca('SubhaloMassInMaxRad', 'mass_maxr', M10, 'Msun/h', -1)
vec('SubhaloSpin', ['spin_x', 'spin_y', 'spin_z'], K, 'Mpc/h km/s', -1)
sca('SubhaloVelDisp', 'vdisp', I, 'km/s', 0)
sca('SubhaloVmax', 'vmax', I, 'km/s', 0)
sca('SubhaloVmaxRad', 'r_vmax', K, 'Mpc/h', -1)
DM = set(ILL)
sca('SubhaloBHMass', 'bhmass', M10, 'Msun/h', -1)
sca('SubhaloBHMdot', 'bhmdot', 1e10 / 0.978, 'Msun/h / (Gyr/h)', 0)
for s, t in (('', ''), ('HalfRad', '_hr'), ('MaxRad', '_maxr')):
    sca('SubhaloGasMetallicity' + s, 'met' + t, I, 'None', 0)
    sca('SubhaloStarMetallicity' + s, 'met_stellar' + t, I, 'None', 0)
for raw, t in (('SubhaloMassType', ''), ('SubhaloMassInHalfRadType', '_hr'), ('SubhaloMassInMaxRadType', '_maxr'), ('SubhaloMassInRadType', '_2hr')):
    vec(raw, ['m_gas' + t, 'm_dm' + t, None, 'm_tracers' + t, 'm_stars_wind' + t, 'm_bh' + t], M10, 'Msun/h', -1)
sca('SubhaloMassInHalfRad', 'mass_hr', M10, 'Msun/h', -1)
sca('SubhaloMassInRad', 'mass_2hr', M10, 'Msun/h', -1)
for raw, n in (('SubhaloSFR', 'sfr'), ('SubhaloSFRinHalfRad', 'sfr_hr'), ('SubhaloSFRinMaxRad', 'sfr_maxr'), ('SubhaloSFRinRad', 'sfr_2hr')):
    sca(raw, n, I, 'Msun/yr', 0)
vec('SubhaloStellarPhotometrics', ['phot_' + c for c in 'UBVKgriz'], I, 'mag', 0)
NODARK = set(ILL)
for s, t in (('', ''), ('HalfRad', '_hr'), ('MaxRad', '_maxr')):
    vec('SubhaloGasMetalFractions' + s, ['met' + c + t for c in ('H', 'He', 'C', 'N', 'O', 'Ne', 'Mg', 'Si', 'Fe', 'Other')], I, 'None', 0)
sca('SubhaloFlag', 'flag', I, 'none', 0)
RAW = {}
for _n, (_r, _c, *_x) in ILL.items():
    RAW[_r] = max(RAW.get(_r, 0), 0 if _c is None else _c + 1)


class C(Check):
    id = 'C11'
    technique = 'exhaustive enumeration of small raw files (record kinds x counts x chunkings) for every supported raw format, through the real loader, formatter and reader vs. an independent field table'
    rule = 'one case = one raw snapshot of one simulation family; non-trivial with at least two halos'
    assumptions = ('raw formats as documented by the simulation teams (UniverseMachine DR1 struct, Uchuu h5 files, TNG group catalogues)',)
    chunk = 2

    def setup(self):
        import h5py
        from simim.siminterface import universemachine, uchuu, illustris, SimHandler
        self.h5py, self.SH = h5py, SimHandler
        self.um, self.uu, self.il = universemachine, uchuu, illustris

    def cases(self, tier):
        deep = tier == 'thorough'
        for basic in (0, 1):
            for n in range(0, 5):
                yield {'k': 'ascii', 'n': n, 'basic': basic}
        kinds = ['ok', 'orphan', 'orphan+', 'bit5', 'below', 'above', 'far']
        for n in range(0, 4 if deep else 3):
            for rec in itertools.product(kinds, repeat=n):
                yield {'k': 'bin', 'rec': list(rec), 'sim': 'UniverseMachine-SMDPL', 'basic': 0}
        for rec in (['ok', 'orphan', 'below'], ['far', 'ok', 'bit5']):
            yield {'k': 'bin', 'rec': rec, 'sim': 'UniverseMachine-MDPL2', 'basic': 0}
            yield {'k': 'bin', 'rec': rec, 'sim': 'UniverseMachine-SMDPL', 'basic': 1}
        for n in range(0, 4):
            for basic in (0, 1):
                for bad in (0, 1, 2, 3):
                    yield {'k': 'uchuu', 'n': n, 'basic': basic, 'short': bad}
        chunks = [[0], [1], [3], [2, 1], [1, 0, 2], [1, 1, 1], [2, 0, 0], [1, 0, 0, 1]]
        if deep:
            chunks += [list(c) for c in itertools.product((1, 2), (0, 1, 2), (0, 1, 2))]
        for sim in ('TNG100-1', 'TNG300-2-Dark', 'Illustris-1', 'Illustris-3-Dark'):
            for ch in chunks:
                for basic in ((0, 1) if len(ch) < 3 else (0,)):
                    yield {'k': 'ill', 'sim': sim, 'chunks': ch, 'basic': basic}

    def run(self, case, ctx):
        base = core.fresh_dir(ctx.scratch)
        try:
            os.mkdir(os.path.join(base, 'raw'))
            n = getattr(self, 'do_' + case['k'])(case, ctx, base)
            ctx.step()
            if n and n > 1:
                ctx.interesting()
        finally:
            shutil.rmtree(base, ignore_errors=True)

    def verify(self, ctx, case, sim, base, snap, exp, units, h):
        """exp: {name: [values by halo]} in any common halo order; compare as aligned rows through SimHandler."""
        from . import fake
        fake.register(sim, base)
        sn = self.SH(sim, in_h_units=True).get_snap(snap)
        names = sorted(exp)
        got_names = sorted(sn.extract_keys('any'))
        ctx.expect(got_names == names, 'fields', lambda: '{}: fields {} missing {} extra'.format(case, set(names) - set(got_names), set(got_names) - set(names)))
        cols = {}
        n = len(exp['mass'])
        for k in names:
            ctx.step()
            u, e = units[k]
            if u is not None:
                ctx.expect(sn.properties_units[k] == u, 'units', lambda: '{}: {} units {!r} expected {!r}'.format(case, k, sn.properties_units[k], u))
            ctx.expect(sn.properties_h_dependence[k] == e, 'units', lambda: '{}: {} h dependence {} expected {}'.format(case, k, sn.properties_h_dependence[k], e))
            cols[k] = np.asarray(sn.return_property(k), dtype=float)
            if n:
                ctx.expect(cols[k].shape == (n,), 'length', lambda: '{}: {} has shape {} for {} halos'.format(case, k, cols[k].shape, n))
        if n == 0:
            ctx.expect(sn.nhalos_all == 0, 'length', lambda: '{}: {} halos'.format(case, sn.nhalos_all))
            return
        order = np.argsort(-np.array(exp['mass']), kind='stable')        # masses are distinct
        for k in names:
            want = np.array(exp[k])[order]
            ctx.expect(np.allclose(cols[k], want, rtol=2e-6, atol=1e-30), 'values', lambda: '{}: {} = {} expected {}'.format(case, k, cols[k], want))
        ctx.state((case['k'], [tuple(cols[k]) for k in names]))

    # ---- UniverseMachine ascii
    def do_ascii(self, case, ctx, base):
        f = ['sfr_catalog_0.500000.txt', 'sfr_catalog_1.000000.txt']
        np.save(os.path.join(base, 'web_paths.npy'), np.array(f))
        n = case['n']
        recs = []
        for i in range(n):
            r = {c: float(10 * (j + 1) + i) for j, c in enumerate(ASCII)}
            r['m'] = 1e11 * (1 + (3 * i) % 11)
            for c in ('id', 'descid', 'upid', 'flags'):
                r[c] = int(r[c])
            recs.append(r)
        for fn in f:
            with open(os.path.join(base, 'raw', fn), 'w') as fh:
                fh.write('#' + ' '.join(ASCII) + '\n# comment\n')
                for r in (recs if fn == f[1] else recs[:1]):
                    fh.write(' '.join(repr(r[c]) for c in ASCII) + '\n')
        mk = lambda: self.um.UniversemachineCatalogs('UniverseMachine-BolshoiPlanck', path=base, snaps=[0, 1], updatepath=False)
        mk().download_meta()
        c = mk()
        c.format(basic=bool(case['basic']))
        self.um_verify(case, ctx, base, 'UniverseMachine-BolshoiPlanck', recs, UM_ASCII, c.h, 1, case['basic'])
        return n

    def um_verify(self, case, ctx, base, sim, recs, table, h, snap, basic):
        names = list(table) if not basic else ['pos_x', 'pos_y', 'pos_z', 'v_x', 'v_y', 'v_z', 'mass']
        exp = {k: [r[table[k][0]] * table[k][1](h) for r in recs] for k in names}
        self.verify(ctx, case, sim, base, snap, exp, {k: (table[k][2], table[k][3]) for k in names}, h)

    # ---- UniverseMachine binary
    def do_bin(self, case, ctx, base):
        f = ['sfr_catalog_0.500000.bin', 'sfr_catalog_1.000000.bin']
        np.save(os.path.join(base, 'web_paths.npy'), np.array(f))
        box = {'UniverseMachine-SMDPL': 400., 'UniverseMachine-MDPL2': 1000.}[case['sim']]
        out, recs = b'', []
        for i, kind in enumerate(case['rec']):
            r = {c: float(10 * (j + 1) + i) + .5 for j, c in enumerate(BIN)}
            for c in ('id', 'descid', 'upid', 'flags'):
                r[c] = int(r[c])
            r['flags'] = {'orphan': 16, 'orphan+': 16 | 3, 'bit5': 32 | 1}.get(kind, 0)
            r['m'] = 1e11 * (1 + (3 * i) % 11)
            if kind == 'below':
                r['x'] = -0.5
            if kind == 'above':
                r['y'] = box + 0.5
            if kind == 'far':
                r['z'] = -2 * box - 1.
            out += struct.pack('<3q i f 6f 2f 4f 5f 6f f', *[r[c] for c in BIN])
            if not kind.startswith('orphan'):
                r = dict(r)
                for c in 'xyz':
                    r[c] = r[c] % box
                recs.append(r)
        for fn in f:
            with open(os.path.join(base, 'raw', fn), 'wb') as fh:
                fh.write(out if fn == f[1] else b'')
        mk = lambda: self.um.UniversemachineCatalogs(case['sim'], path=base, snaps=[0, 1], updatepath=False)
        mk().download_meta()
        c = mk()
        c.format(basic=bool(case['basic']))
        self.um_verify(case, ctx, base, case['sim'], recs, UM_BIN, c.h, 1, case['basic'])
        return len(recs)

    # ---- Uchuu
    def do_uchuu(self, case, ctx, base):
        f = ['Uchuu_UM_z1p00_data1.h5', 'Uchuu_UM_z0p00_data1.h5']
        np.save(os.path.join(base, 'web_paths.npy'), np.array(f))
        n = case['n']
        recs = []
        j = 0
        for i in range(n):
            r = {}
            for d in (1, 2, 3):
                for c in UU_FILE[d]:
                    j += 1
                    r[c] = float(j)
            r['Mvir'] = 1e11 * (1 + (3 * i) % 11)
            recs.append(r)
        for fn in f:
            use = recs if fn == f[1] else recs[:1]
            for d in (1, 2, 3):
                with self.h5py.File(os.path.join(base, 'raw', fn.replace('data1', 'data{}'.format(d))), 'w') as h:
                    for c in UU_FILE[d]:
                        v = np.array([r[c] for r in use], dtype='f8')
                        if case['short'] == d and fn == f[1] and c == UU_FILE[d][-1]:
                            v = v[:-1]
                        h[c] = v
        mk = lambda: self.uu.UchuuCatalogs('UniverseMachine-uchuu', path=base, snaps=[0, 1], updatepath=False)
        mk().download_meta()
        c = mk()
        truncated = case['short'] and n > 0 and (not case['basic'] or UU_FILE[case['short']][-1] in ('x', 'y', 'z', 'vx', 'vy', 'vz', 'Mvir'))
        try:
            c.format(basic=bool(case['basic']))
        except ValueError:
            ctx.expect(truncated, 'refused', lambda: '{} refused'.format(case))
            return 0
        ctx.expect(not truncated, 'truncated', lambda: '{}: a truncated field was accepted'.format(case))
        self.um_verify(case, ctx, base, 'UniverseMachine-uchuu', recs, UU, c.h, 1, case['basic'])
        return n

    # ---- Illustris
    def do_ill(self, case, ctx, base):
        sim = case['sim']
        dark = sim.endswith('Dark')
        tng = sim.startswith('TNG')
        names = set(DM) if dark else (set(ILL) if tng else set(NODARK))
        raws = sorted({ILL[k][0] for k in names})
        tot = sum(case['chunks'])
        snap = 4
        data = {}
        for j, r in enumerate(raws):
            w = RAW[r]
            if r == 'SubhaloStellarPhotometrics':
                w = 8
            shape = (tot, w) if w else (tot,)
            a = (np.arange(int(np.prod(shape)), dtype='f8').reshape(shape) + 100. * (j + 1)) / 8
            data[r] = a.astype('i4') if r == 'SubhaloFlag' else a.astype('f4')
        data['SubhaloMass'] = np.array([1. + (3 * i) % 11 for i in range(tot)], dtype='f4')
        from simim.siminterface import illustris
        m = rs.metadata(2, .7)
        m['name'] = sim
        np.save(os.path.join(base, 'meta.npy'), m)
        rows = rs.snap_meta(2)
        rows['index'] = [4, 9]
        np.save(os.path.join(base, 'meta_snaps.npy'), rows)
        d = os.path.join(base, 'raw', 'groups_{:03d}'.format(snap))
        os.mkdir(d)
        off = 0
        for i, nloc in enumerate(case['chunks']):
            pre = 'fof_subhalo_tab' if tng else 'groups'
            with self.h5py.File(os.path.join(d, '{}_{:03d}.{}.hdf5'.format(pre, snap, i)), 'w') as f:
                hd = f.create_group('Header')
                hd.attrs['NumFiles'] = len(case['chunks'])
                hd.attrs['Nsubgroups_Total'] = tot
                hd.attrs['Nsubgroups_ThisFile'] = nloc
                g = f.create_group('Subhalo')
                if nloc or i == 0:
                    for r in raws:
                        g[r] = data[r][off:off + nloc]
            off += nloc
        c = self.il.IllustrisCatalogs(sim, 'key', path=base, snaps=[snap], updatepath=False)
        c.format(basic=bool(case['basic']))
        if case['basic']:
            names = BASIC | ({'flag'} if tng and not dark else set())
        exp, units = {}, {}
        for k in names:
            r, col, f, u, e = ILL[k]
            v = data[r] if col is None else (data[r][:, col] if tot else data[r].ravel())
            exp[k] = [float(x) * f for x in v]
            units[k] = (u, e)
        # an empty SimHandler snapshot still needs the other snapshot's metadata row only
        self.verify(ctx, case, sim, base, snap, exp, units, .7)
        return tot


CHECK = C()
