"""Formatted simulations built directly in SimIM's documented HDF5 layout."""
import os
import numpy as np
from .rawsim import META_DT

UNITS = {'pos_x': ('Mpc/h', -1), 'pos_y': ('Mpc/h', -1), 'pos_z': ('Mpc/h', -1), 'mass': ('Msun/h', -1),
         'v_x': ('km/s', 0), 'v_y': ('km/s', 0), 'v_z': ('km/s', 0)}


def mass_cuts(masses):
    c = np.zeros(141, dtype=[('min_mass', 'f'), ('index', 'i')])
    c['min_mass'] = np.logspace(6, 20, 141)[::-1]
    for i in range(141):
        c['index'][i] = int(np.sum(np.asarray(masses, dtype='f') >= c['min_mass'][i]))
    return c


def cosmology(h, om, ob):
    from astropy.cosmology import FlatLambdaCDM
    import astropy.units as u
    return FlatLambdaCDM(H0=100 * h * u.km / u.s / u.Mpc, Om0=om, Ob0=ob, Tcmb0=2.7255 * u.K)


def meta_rows(snaps, h, om=0.3, ob=0.05):
    """snaps: list of (index, redshift) in decreasing redshift; bins meet half way in redshift."""
    cosmo = cosmology(h, om, ob)
    zs = [z for _, z in snaps]
    rows = np.zeros(len(snaps), dtype=META_DT)
    for i, (idx, z) in enumerate(snaps):
        zmax = z if i == 0 else (z + zs[i - 1]) / 2
        zmin = 0. if i == len(snaps) - 1 else (z + zs[i + 1]) / 2
        dmin = cosmo.comoving_distance(zmin).value * h if zmin > 0 else 0.
        dmax = cosmo.comoving_distance(zmax).value * h if zmax > 0 else 0.
        rows[i] = (idx, z, zmin, zmax, cosmo.age(zmax).value, cosmo.age(zmin).value, dmin, dmax, dmin, dmax)
    rows.sort(order='index')
    return rows


def write_sim(h5py, path, snaps, halos, box=8.0, h=0.5, om=0.3, ob=0.05, units=None, dtypes=None, name='fake'):
    """snaps: [(index, z)];  halos: {index: {field: list}} (mass must be there; it is sorted here)."""
    units = dict(UNITS, **(units or {}))
    rows = meta_rows(snaps, h, om, ob)
    os.makedirs(path, exist_ok=True)
    with h5py.File(os.path.join(path, 'data.hdf5'), 'w') as f:
        for k, v in {'name': name, 'box_edge': box, 'number_snaps': len(snaps), 'cosmo_name': 'c',
                     'cosmo_omega_matter': om, 'cosmo_omega_lambda': 1 - om, 'cosmo_omega_baryon': ob, 'cosmo_h': h}.items():
            f.attrs[k] = v
        f.attrs['snapshots'] = rows
        for idx, _ in snaps:
            g = f.create_group('Snapshot {}'.format(idx))
            d = halos[idx]
            m = np.asarray(d['mass'], dtype='f')
            order = np.argsort(-m, kind='stable')
            g.create_dataset('mass_cuts', data=mass_cuts(m))
            for k, v in d.items():
                a = np.asarray(v, dtype=(dtypes or {}).get(k, 'f'))[order]
                g.create_dataset(k, data=a)
                g[k].attrs['units'] = units[k][0]
                g[k].attrs['h dependence'] = units[k][1]
            g.attrs['metadata'] = rows[rows['index'] == idx]
    return rows


def register(sim, path):
    from simim._paths import _SimIMPaths
    p = _SimIMPaths()
    p._newsimpath(sim, new_path=path, checkoverwrite=False)
    return p
