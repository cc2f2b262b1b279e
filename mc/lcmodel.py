"""Reference model of light cones: the periodic tiling of the simulation box seen by an observer.

A light cone is determined by what its file says about it (start position, box flips, line of sight and position
angle rotations, opening angle, shape, redshift range, mass cut).  The model places every periodic image of every
halo of every snapshot relative to the observer and keeps those in the field at the distances the snapshot covers.
"""
import itertools
import numpy as np
from . import fake

D_TOL, A_TOL = 2e-5, 1e-8
SHAPES = ('circle', 'box')


class Script(np.random.Generator):
    """Random generator with enumerated answers, recognised by the shape that is asked for."""

    def __init__(self, start, flips, los, pa):
        super().__init__(np.random.PCG64(5))
        self.start, self.flips, self.los, self.pa = start, flips, los, pa
        self.count = {}

    def _next(self, kind, values):
        i = self.count[kind] = self.count.get(kind, -1) + 1
        if i > 400:
            raise RuntimeError('no acceptable line of sight after 400 attempts')
        return values[i % len(values)]

    def random(self, size=None, *a, **k):
        if size is None:
            return self._next('pa', self.pa)
        size = (size,) if np.ndim(size) == 0 else tuple(size)
        if size == (3,):
            return np.array(self._next('los', self.los), dtype=float)
        return np.array([self._next('start', self.start) for _ in range(size[0])], dtype=float)

    def choice(self, a, size=None, *x, **k):
        return np.array([self._next('flips', self.flips) for _ in range(size[0])])


def directions(m):
    """All directions with integer components 1..m (up to scale)."""
    out = []
    for v in itertools.product(range(1, m + 1), repeat=3):
        if np.gcd.reduce(v) == 1:
            out.append([c / (m + 1.) for c in v])
    return out


FALLBACK = [.7, .62, .66]
FLIPS = [list(f) for f in itertools.product((1, -1), repeat=3)]


def lattice(n, box, shift, masses, jitter=.9):
    """n^3 halos, deterministic and in general position; masses cycle through a list."""
    g = np.array(list(itertools.product(range(n), repeat=3)), dtype=float)
    i = np.arange(len(g))
    j = np.stack([(i * a + s) % 1. for a, s in zip((.6180339887, .7548776662, .5698402910), shift)], axis=1)
    pos = ((g + .05 + jitter * j) / n * box).astype('f')
    m = np.array([masses[(5 * k + k // 7) % len(masses)] for k in range(len(g))], dtype='f')
    return {'pos_x': pos[:, 0], 'pos_y': pos[:, 1], 'pos_z': pos[:, 2], 'mass': m}


def read_sim(h5py, path):
    """{snap: {field: array}} as it is on disk, and the snapshot table."""
    import os
    out = {}
    with h5py.File(os.path.join(path, 'data.hdf5'), 'r') as f:
        rows = f.attrs['snapshots']
        box, h = float(f.attrs['box_edge']), float(f.attrs['cosmo_h'])
        om, ob = float(f.attrs['cosmo_omega_matter']), float(f.attrs['cosmo_omega_baryon'])
        for r in rows:
            g = f['Snapshot {}'.format(r['index'])]
            out[int(r['index'])] = {k: g[k][:] for k in g if k != 'mass_cuts'}
    return out, rows, box, h, fake.cosmology(h, om, ob)


def table(h5file):
    """All rows of a light cone file: {field: array} from both groups, and the sim indices."""
    full = {k: h5file['Lightcone Full'][k][:] for k in h5file['Lightcone Full']}
    basic = {k: h5file['Lightcone Basic'][k][:] for k in h5file['Lightcone Basic']}
    return basic, full, h5file['Indexing']['sim_indices'][:], h5file['Indexing']['redshift_indices'][:]


def frame(attrs):
    """Rotation from flipped box axes to (line of sight, first, second transverse axis)."""
    if attrs['shape'] in SHAPES:
        return np.matmul(attrs['position angle transformation matrix'], attrs['line of sight transformation matrix'])
    return None


def expected(sim, rows, box, h, cosmo, attrs, mass_cut, zmin, zmax):
    """(must, may): every image that has to be / may be in the light cone, as (snap, index, x, y, z, d) rows.

    An image is in `may` but not in `must` if it lies within rounding of an edge of the field."""
    R = frame(attrs)
    flips, start = np.array(attrs['box flips'], float), np.array(attrs['start position'], float)
    dz0, dz1 = [cosmo.comoving_distance(z).value * h if z > 0 else 0. for z in (zmin, zmax)]
    must, may = [], []
    for r in rows:
        d0, d1 = max(float(r['distance_min']), dz0), min(float(r['distance_max']), dz1)
        if d1 < d0 - D_TOL:
            continue
        s = sim[int(r['index'])]
        keep = np.where(s['mass'].astype(float) >= mass_cut)[0]
        if not len(keep):
            continue
        p = np.stack([s['pos_x'][keep], s['pos_y'][keep], s['pos_z'][keep]], axis=1).astype(float) * flips
        p = (p % box) - start
        if R is not None:
            los = R[0]
            rad = float(attrs['open angle']) / 2 * (1.5 if attrs['shape'] == 'box' else 1.)
            ends = np.array([(d0 * .9 - 1) * los, (d1 + 1) * los])
            lo, hi = ends.min(0) - rad * d1 - 1, ends.max(0) + rad * d1 + 1
            diag = box * np.sqrt(3) / 2
            tiles = itertools.product(*[range(int(np.floor((lo[i] - box + start[i]) / box)), int(np.ceil((hi[i] + start[i]) / box)) + 1) for i in range(3)])
        else:
            tiles = itertools.product((-1, 0, 1), repeat=3)
        for k in tiles:
            k = np.array(k, float)
            if R is not None:
                c = (k + .5) * box - start
                a = float(c @ los)
                t = np.sqrt(max(float(c @ c) - a * a, 0))
                if a < d0 * .9 - diag - 1 or a > d1 + diag + 1 or t > rad * (a + diag) + diag + 1:
                    continue
            q = p + k * box
            if R is not None:
                q = q @ R.T
                x, y, z = q[:, 1], q[:, 2], q[:, 0]
            else:
                x, y, z = q.T
            d = np.sqrt(x * x + y * y + z * z)
            e = np.minimum(d - d0, d1 - d)         # >= 0 inside [d0, d1), up to rounding
            lim = D_TOL
            if attrs['shape'] == 'circle':
                g = float(attrs['open angle']) / 2 - np.sqrt(x * x + y * y) / d
                front = z > 0
            elif attrs['shape'] == 'box':
                o1, o2 = float(attrs['open angle']) / 2, float(attrs['open angle']) * float(attrs['aspect ratio']) / 2
                g = np.minimum(o1 - np.abs(x / d), o2 - np.abs(y / d))
                front = z > 0
            else:
                g = {'sphere': np.ones(len(d)), 'hemisphere': z, 'quarter': np.minimum(z, y),
                     'eighth': np.minimum(np.minimum(x, y), z)}[attrs['shape']]
                front = np.ones(len(d), bool)       # the shell is complete or the request is refused
            inn = front & (e >= -lim) & (g >= -A_TOL)
            sure = front & (e > lim) & (g > A_TOL)
            for sel, out in ((inn, may), (sure, must)):
                i = np.where(sel)[0]
                if len(i):
                    out.append(np.stack([np.full(len(i), float(r['index'])), keep[i].astype(float), x[i], y[i], z[i], d[i]], axis=1))
    cat = lambda a: np.concatenate(a) if a else np.zeros((0, 6))
    return cat(must), cat(may)


def match(got, must, may, tol=1e-4):
    """Compare rows (snap, index, x, y, z): returns (missing, unexpected, duplicated) samples."""
    from collections import defaultdict
    def near(pool, row):
        for c in pool.get((row[0], row[1]), ()):
            if max(abs(c[2] - row[2]), abs(c[3] - row[3]), abs(c[4] - row[4])) < tol:
                return True
        return False
    def index(a):
        d = defaultdict(list)
        for row in a.tolist():
            d[(row[0], row[1])].append(row)
        return d
    ig, iy = index(got), index(may)
    missing = [r for r in must.tolist() if not near(ig, r)]
    extra = [r for r in got.tolist() if not near(iy, r)]
    dup = []
    for k, rows in ig.items():
        for i in range(len(rows)):
            for j in range(i):
                if max(abs(rows[i][c] - rows[j][c]) for c in (2, 3, 4)) < tol:
                    dup.append(rows[i])
    return missing, extra, dup


def memoize_cosmology():
    """astropy integrates 100000 distances for every LCMaker; the result only depends on the cosmology."""
    from astropy.cosmology import FlatLambdaCDM
    real, cache = FlatLambdaCDM.comoving_distance, {}

    def comoving_distance(self, z, *a, **k):
        if a or k or np.size(z) < 1000 or not isinstance(z, np.ndarray):
            return real(self, z, *a, **k)
        key = (float(self.H0.value), float(self.Om0), float(self.Ob0 or 0), float(self.Tcmb0.value), z.tobytes())
        if key not in cache:
            cache[key] = real(self, z)
        return cache[key].copy()
    FlatLambdaCDM.comoving_distance = comoving_distance
    memoize_units()


def memoize_units():
    """astropy searches for the unit of the critical density whenever a cosmology is made."""
    from astropy.units.core import UnitBase
    real, cache = UnitBase.to_system, {}

    def to_system(self, system):
        key = (self.scale, tuple(map(str, self.bases)), tuple(self.powers), system.__name__)
        if key not in cache:
            cache[key] = real(self, system)
        return list(cache[key])
    UnitBase.to_system = to_system
