"""Imports the simim found in the current directory from a private copy with a scratch data root."""
import atexit, os, shutil, sys, tempfile, warnings
import numpy as np

warnings.simplefilter('ignore')
BASE = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, BASE, True)
PKG, ROOT, HOME = (os.path.join(BASE, d) for d in ('pkg', 'root', 'home'))
for d in (PKG, ROOT, HOME):
    os.mkdir(d)
shutil.copytree(os.path.join(os.getcwd(), 'simim'), os.path.join(PKG, 'simim'), ignore=shutil.ignore_patterns('rootpath.txt', '__pycache__'))
with open(os.path.join(PKG, 'simim', 'resources', 'rootpath.txt'), 'w') as f:
    f.write(ROOT)
for d in ('', '.paths', 'simulations', 'lightcones', 'galprops'):
    os.mkdir(os.path.join(ROOT, 'simim_resources', d))
os.environ.update(HOME=HOME, XDG_CACHE_HOME=HOME, XDG_CONFIG_HOME=HOME, MPLCONFIGDIR=HOME, MPLBACKEND='Agg')
sys.dont_write_bytecode = True
sys.path.insert(0, PKG)
os.chdir(BASE)
import simim
assert os.path.realpath(simim.__file__).startswith(os.path.realpath(PKG)), simim.__file__

META_DT = [('index', 'i'), ('redshift', 'f'), ('redshift_min', 'f'), ('redshift_max', 'f'), ('time_start', 'f'), ('time_end', 'f'),
           ('transverse_distance_min', 'f'), ('transverse_distance_max', 'f'), ('distance_min', 'f'), ('distance_max', 'f')]
UNITS = {'pos_x': ('Mpc/h', -1), 'pos_y': ('Mpc/h', -1), 'pos_z': ('Mpc/h', -1), 'mass': ('Msun/h', -1),
         'v_x': ('km/s', 0), 'v_y': ('km/s', 0), 'v_z': ('km/s', 0)}


def make_sim(name, snaps, halos, box=8.0, h=0.5, om=0.3, ob=0.05, units=None):
    """snaps: [(index, z)] in decreasing redshift; halos: {index: {field: list}}.  Writes and registers a formatted simulation."""
    import h5py
    import astropy.units as u
    from astropy.cosmology import FlatLambdaCDM
    from simim._paths import _SimIMPaths
    units = dict(UNITS, **(units or {}))
    cosmo = FlatLambdaCDM(H0=100 * h * u.km / u.s / u.Mpc, Om0=om, Ob0=ob, Tcmb0=2.7255 * u.K)
    zs = [z for _, z in snaps]
    rows = np.zeros(len(snaps), dtype=META_DT)
    for i, (idx, z) in enumerate(snaps):
        zmax = z if i == 0 else (z + zs[i - 1]) / 2
        zmin = 0. if i == len(snaps) - 1 else (z + zs[i + 1]) / 2
        D = lambda x: cosmo.comoving_distance(x).value * h if x > 0 else 0.
        rows[i] = (idx, z, zmin, zmax, cosmo.age(zmax).value, cosmo.age(zmin).value, D(zmin), D(zmax), D(zmin), D(zmax))
    rows.sort(order='index')
    path = os.path.join(BASE, 'sim_' + name)
    os.makedirs(path)
    with h5py.File(os.path.join(path, 'data.hdf5'), 'w') as f:
        for k, v in {'name': name, 'box_edge': box, 'number_snaps': len(snaps), 'cosmo_name': 'c', 'cosmo_omega_matter': om,
                     'cosmo_omega_lambda': 1 - om, 'cosmo_omega_baryon': ob, 'cosmo_h': h}.items():
            f.attrs[k] = v
        f.attrs['snapshots'] = rows
        for idx, _ in snaps:
            g = f.create_group('Snapshot {}'.format(idx))
            m = np.asarray(halos[idx]['mass'], dtype='f')
            order = np.argsort(-m, kind='stable')
            c = np.zeros(141, dtype=[('min_mass', 'f'), ('index', 'i')])
            c['min_mass'] = np.logspace(6, 20, 141)[::-1]
            c['index'] = [int(np.sum(m >= x)) for x in c['min_mass']]
            g.create_dataset('mass_cuts', data=c)
            for k, v in halos[idx].items():
                g.create_dataset(k, data=np.asarray(v, dtype='f')[order])
                g[k].attrs['units'] = units[k][0]
                g[k].attrs['h dependence'] = units[k][1]
            g.attrs['metadata'] = rows[rows['index'] == idx]
    _SimIMPaths()._newsimpath(name, new_path=path, checkoverwrite=False)
    return path
