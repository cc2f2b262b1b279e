"""Reference model of a grid: independent axes, data by cell, units; and comparison with the real thing."""
import numpy as np


def dft(n, inverse=False):
    """Matrix from cells 0..n-1 to frequencies in ascending order (or back)."""
    k = np.arange(n) - n // 2
    j = np.arange(n)
    m = np.exp((2j if inverse else -2j) * np.pi * np.outer(k, j) / n)
    return m.T / n if inverse else m


class Dim:
    def __init__(self, lo, n, pix, unit=None, fourier=False):
        self.lo, self.n, self.pix, self.unit, self.fourier = float(lo), int(n), float(pix), unit, fourier

    def copy(self):
        return Dim(self.lo, self.n, self.pix, self.unit, self.fourier)

    side = property(lambda s: s.n * s.pix)
    center = property(lambda s: s.lo + s.n * s.pix / 2)
    edges = property(lambda s: s.lo + np.arange(s.n + 1) * s.pix)
    centers = property(lambda s: s.lo + (np.arange(s.n) + .5) * s.pix)
    fcenters = property(lambda s: (np.arange(s.n) - s.n // 2) / (s.n * s.pix))
    fedges = property(lambda s: (np.arange(s.n + 1) - .5 - s.n // 2) / (s.n * s.pix))


class Model:
    def __init__(self, dims, data, units):
        self.dims, self.data, self.units = dims, data, list(units)
        self.scale = 0.         # largest value met so far: the yardstick for rounding errors

    def copy(self):
        m = Model([d.copy() for d in self.dims], self.data.copy(), self.units)
        m.scale = self.scale
        return m

    def apply(self, mat, ax):
        self.data = np.moveaxis(np.tensordot(mat, self.data, axes=(1, ax)), 0, ax)

    def fourier(self, axes, normalize=True):
        for a in axes:
            d = self.dims[a]
            self.apply(dft(d.n, d.fourier), a)
            if normalize:
                self.data = self.data * (1 / d.pix if d.fourier else d.pix)
            d.fourier = not d.fourier


def close(a, b, tol=1e-9, scale=0.):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    s = max(1e-300, float(np.max(np.abs(b[np.isfinite(b)]), initial=0.)), scale)
    return bool(np.all((np.abs(a - b) <= tol * s) | (a == b) | (np.isnan(a) & np.isnan(b))))


def unit(u):
    return None if u is None else str(u)


def diff(g, m, tol=1e-9):
    """First disagreement between a real grid and the model, or None."""
    nd = len(m.dims)
    if int(g.n_dimensions) != nd:
        return 'n_dimensions', g.n_dimensions, nd
    if int(g.n_properties) != len(m.units):
        return 'n_properties', g.n_properties, len(m.units)
    for name, want in (('n_pixels', [d.n for d in m.dims]), ('pixel_size', [d.pix for d in m.dims]),
                       ('side_length', [d.side for d in m.dims]), ('center_point', [d.center for d in m.dims])):
        got = np.asarray(getattr(g, name), dtype=float)
        if got.shape != (nd,) or not np.allclose(got, want, rtol=1e-9, atol=1e-9):
            return name, got.tolist(), want
    for name, attr in (('axes', 'edges'), ('axes_centers', 'centers'), ('fourier_axes', 'fedges'), ('fourier_axes_centers', 'fcenters')):
        got = getattr(g, name)
        if len(got) != nd:
            return name, len(got), nd
        for i, d in enumerate(m.dims):
            want = getattr(d, attr)
            if np.shape(got[i]) != want.shape or not np.allclose(got[i], want, rtol=1e-9, atol=1e-9 * max(1., d.pix, 1 / d.pix)):
                return '{}[{}]'.format(name, i), np.asarray(got[i]).tolist(), want.tolist()
    want = [unit(d.unit) for d in m.dims]
    got = [unit(u) for u in g.axunits]
    if got != want:
        return 'axunits', got, want
    want = [None if d.unit is None else d.unit + '^-1' for d in m.dims]
    got = [unit(u) for u in g.fourier_axunits]
    if got != want:
        return 'fourier_axunits', got, want
    got = [unit(u) for u in g.gridunits]
    if got != m.units:
        return 'gridunits', got, m.units
    got = [bool(b) for b in g.fourier_space]
    want = [d.fourier for d in m.dims]
    if got != want:
        return 'fourier_space', got, want
    if m.data is not None:
        if not g.grid_active:
            return 'grid_active', False, True
        if g.grid.shape != m.data.shape:
            return 'grid shape', g.grid.shape, m.data.shape
        if not close(g.grid, m.data, tol, m.scale):
            return 'grid values', np.asarray(g.grid).tolist(), m.data.tolist()
    return None


def snap(g):
    """Everything observable about a real grid, for unchanged-checks."""
    out = [g.n_dimensions, g.n_properties, g.n_objects, bool(g.grid_active), bool(g.is_power_spectrum)]
    for name in ('n_pixels', 'pixel_size', 'side_length', 'center_point'):
        out.append(np.asarray(getattr(g, name), dtype=float).tolist())
    for name in ('axes', 'axes_centers', 'fourier_axes', 'fourier_axes_centers'):
        out.append([np.asarray(a).tolist() for a in getattr(g, name)])
    for name in ('axunits', 'fourier_axunits', 'gridunits'):
        out.append([unit(u) for u in getattr(g, name)])
    out.append([bool(b) for b in g.fourier_space])
    out.append(np.array(g.grid).tolist() if g.grid_active else None)
    return out
