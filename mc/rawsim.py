"""A small, fully controlled raw simulation on top of the real SimCatalogs, plus the reference
formatter.  Raw snapshots are real files, so deletion and re-reading are real."""
import json, os
import numpy as np

META_DT = [('index', 'i'), ('redshift', 'f'), ('redshift_min', 'f'), ('redshift_max', 'f'),
           ('time_start', 'f'), ('time_end', 'f'), ('distance_min', 'f'), ('distance_max', 'f'),
           ('transverse_distance_min', 'f'), ('transverse_distance_max', 'f')]


def metadata(n, h=0.5):
    return {'name': 'TNG100-1', 'box_edge': 8.0, 'number_snaps': n, 'cosmo_name': 'c',
            'cosmo_omega_matter': 0.3, 'cosmo_omega_lambda': 0.7, 'cosmo_omega_baryon': 0.05,
            'cosmo_h': h, 'groupcat_number_files': 1}


def snap_meta(n):
    m = np.zeros(n, dtype=META_DT)
    for i in range(n):
        z = (n - 1 - i)
        m[i] = (i, z + .25, z, z + 1, 10 - z, 11 - z, 100 * z, 100 * (z + 1), 100 * z, 100 * (z + 1))
    return m


# formatted field name, how to compute it from the raw record, units, h dependence, basic?
# raw record: (x, y, z, mass, t0, t1, s)     formatted = transform(raw)
BASIC_TUPLE = {'Pos': [('pos_x', 'f', 'Mpc/h', -1), ('pos_y', 'f', 'Mpc/h', -1), ('pos_z', 'f', 'Mpc/h', -1)],
               'M': [('mass', 'f', 'Msun/h', -1)]}
BASIC_SCALAR = {'X': [('pos_x', 'f', 'Mpc/h', -1)], 'Y': [('pos_y', 'f', 'Mpc/h', -1)],
                'Z': [('pos_z', 'f', 'Mpc/h', -1)], 'M': [('mass', 'f', 'Msun/h', -1)]}
DM = {'T': [('t_a', 'f', 'km/s', 0), ('none_t', 'f', 'km/s', 0), ('t_b', 'f', 'Mpc/h', -2)],
      'S': [('s', 'f', 'mag', 3)]}
MATTER = {'N': [('none', 'f', 'K', 0), ('n_b', 'f', 'K', 1)],
          'G': [('g', 'f', 'Gyr/h', -1)]}
FIELDS = {'pos_x': ('Mpc/h', -1), 'pos_y': ('Mpc/h', -1), 'pos_z': ('Mpc/h', -1), 'mass': ('Msun/h', -1),
          't_a': ('km/s', 0), 't_b': ('Mpc/h', -2), 's': ('mag', 3), 'n_b': ('K', 1), 'g': ('Gyr/h', -1)}
BASIC_NAMES = ['pos_x', 'pos_y', 'pos_z', 'mass']


def raw_record(tag, mass):
    """Raw values of one halo: every field carries the tag, so misalignment is visible."""
    return {'x': 1000.0 * (tag + 1), 'y': 1000.0 * (tag + 101), 'z': 1000.0 * (tag + 201), 'm': mass,
            't_a': tag + 301.0, 't_n': tag + 901.0, 't_b': tag + 401.0, 's': tag + 501.0,
            'n_n': tag + 901.0, 'n_b': tag + 601.0, 'g': tag + 701.0}


def formatted_record(r, h):
    """Reference: raw kpc/h -> Mpc/h, raw mass Msun -> Msun/h, g needs * h; the rest unchanged."""
    return {'pos_x': r['x'] / 1000, 'pos_y': r['y'] / 1000, 'pos_z': r['z'] / 1000, 'mass': r['m'] * h,
            't_a': r['t_a'], 't_b': r['t_b'], 's': r['s'], 'n_b': r['n_b'], 'g': r['g'] * h}


def write_raw(path, snap, records, as_dir=False):
    d = os.path.join(path, 'raw')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 'snap_{}.json'.format(snap))
    with open(f, 'w') as fh:
        json.dump(records, fh)
    with open(os.path.join(d, 'extra_{}.dat'.format(snap)), 'w') as fh:
        fh.write('x')
    if as_dir:
        os.makedirs(os.path.join(d, 'dir_{}'.format(snap)), exist_ok=True)
        with open(os.path.join(d, 'dir_{}'.format(snap), 'chunk'), 'w') as fh:
            fh.write('x')


def raw_files(snap, as_dir=False):
    return ['snap_{}.json'.format(snap), 'extra_{}.dat'.format(snap)] + (['dir_{}'.format(snap)] if as_dir else [])


def make_class(SimCatalogs, n, tuple_basic=True, as_dir=False):
    class Cat(SimCatalogs):
        def __init__(self, path, snaps='all'):
            self.allsnaps = np.arange(n)
            SimCatalogs.__init__(self, 'TNG100-1', path, snaps, False)
            self.basic_fields = dict(BASIC_TUPLE if tuple_basic else BASIC_SCALAR)
            self.dm_fields = dict(DM)
            self.matter_fields = dict(MATTER)
            kpc = lambda x, h: x / 1000
            aph = lambda x, h: x * h
            self.transform_keys = {'Pos': kpc, 'X': kpc, 'Y': kpc, 'Z': kpc, 'M': aph, 'G': aph}

        def _loader(self, path, snapshot, fields):
            with open(os.path.join(path, 'snap_{}.json'.format(snapshot))) as fh:
                rec = json.load(fh)
            col = lambda k, t='f8': np.array([r[k] for r in rec], dtype=t)
            full = {'Pos': np.stack([col('x'), col('y'), col('z')], axis=-1) if rec else np.zeros((0, 3)),
                    'X': col('x'), 'Y': col('y'), 'Z': col('z'), 'M': col('m'),
                    'T': np.stack([col('t_a'), col('t_n'), col('t_b')], axis=-1) if rec else np.zeros((0, 3)),
                    'S': col('s'), 'N': np.stack([col('n_n'), col('n_b')], axis=-1) if rec else np.zeros((0, 2)),
                    'G': col('g')}
            out = {}
            for f in fields:
                out[f] = full[f]
            return out, len(rec)

        def _get_rawsnapfiles(self, snapshot):
            return raw_files(snapshot, as_dir)
    return Cat


def save_meta(path, n, h=0.5):
    np.save(os.path.join(path, 'meta.npy'), metadata(n, h))
    np.save(os.path.join(path, 'meta_snaps.npy'), snap_meta(n))


def read_file(h5py, path):
    """Everything formatted: {snap: {'fields': {name: (tuple values, units, h)}, 'cuts': [...], 'meta': ...}}"""
    out = {}
    with h5py.File(os.path.join(path, 'data.hdf5'), 'r') as f:
        attrs = {k: f.attrs[k] for k in f.attrs.keys()}
        for g in f.keys():
            if not g.startswith('Snapshot '):
                continue
            d = {}
            for name in f[g].keys():
                if name == 'mass_cuts':
                    continue
                d[name] = (np.asarray(f[g][name][()]), str(f[g][name].attrs['units']), float(f[g][name].attrs['h dependence']))
            cuts = f[g]['mass_cuts'][()]
            meta = f[g].attrs['metadata'] if 'metadata' in f[g].attrs else None
            out[int(g.split(' ')[1])] = {'fields': d, 'cuts': cuts, 'meta': meta}
    return attrs, out


def check_snapshot(ctx, got, records, h, names, what, n_meta, snap):
    """Compare one formatted snapshot with the reference formatter."""
    exp = [formatted_record(r, h) for r in records]
    ctx.expect(set(got['fields']) == set(names), 'fields',
               lambda: '{}: formatted fields {} expected {}'.format(what, sorted(got['fields']), sorted(names)))
    for nme in names:
        v, u, hd = got['fields'][nme]
        ctx.expect((u, hd) == (FIELDS[nme][0], FIELDS[nme][1]), 'units',
                   lambda: '{}: {} units/h {} expected {}'.format(what, nme, (u, hd), FIELDS[nme]))
        if len(exp) == 0:
            ctx.expect(v.size == 0, 'length', lambda: '{}: {} has {} values for 0 halos'.format(what, nme, v.size))
        else:
            ctx.expect(v.shape == (len(exp),), 'length', lambda: '{}: {} shape {} for {} halos'.format(what, nme, v.shape, len(exp)))
    mass = np.ravel(got['fields']['mass'][0])
    ctx.expect(bool(np.all(np.diff(mass) <= 0)), 'order', lambda: '{}: masses not descending {}'.format(what, mass))
    if len(exp):
        rnd = lambda v: float('{:.5e}'.format(float(np.float32(v))))
        rows = sorted(tuple(rnd(got['fields'][nme][0][i]) for nme in names) for i in range(len(exp)))
        want = sorted(tuple(rnd(e[nme]) for nme in names) for e in exp)
        ctx.expect(rows == want, 'rows', lambda: '{}: halo rows {}\nexpected {}'.format(what, rows, want))
    cuts = got['cuts']
    grid = np.logspace(6, 20, 141)[::-1]
    ctx.expect(len(cuts) == 141 and np.allclose(cuts['min_mass'], grid, rtol=1e-5), 'cuts', lambda: what + ': mass cut grid')
    want = [int(np.sum(mass >= m)) for m in cuts['min_mass']]
    ctx.expect([int(i) for i in cuts['index']] == want, 'cuts',
               lambda: '{}: mass cut index for masses {}: {} expected {}'.format(
                   what, mass, [(float(a), int(b), c) for a, b, c in zip(cuts['min_mass'], cuts['index'], want) if b != c][:3], None))
    m = np.atleast_1d(got['meta']) if got['meta'] is not None else None
    ctx.expect(m is not None and len(m) == 1 and m[0] == snap_meta(n_meta)[snap], 'snapmeta',
               lambda: '{}: snapshot metadata {}'.format(what, m))
