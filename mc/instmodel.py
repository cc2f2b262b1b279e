"""Reference model of an instrument: detectors with responses, fields, maps and samples."""
import itertools, math
import numpy as np


def gauss2(x, y, f, fwhmx=1, fwhmy=1, cx=0, cy=0):
    return math.exp(-4 * math.log(2) * (((x - cx) / fwhmx) ** 2 + ((y - cy) / fwhmy) ** 2))


def gauss2f(x, y, f, freq0=100e9, fwhmx=1, fwhmy=1, cx=0, cy=0, freq_exp=-1):
    s = (freq0 / f) ** freq_exp
    return gauss2(x, y, f, fwhmx * s, fwhmy * s, cx, cy)


def gauss1(f, A=1, freq0=100, fwhm=1):
    return A * math.exp(-4 * math.log(2) * ((f - freq0) / fwhm) ** 2)


def box1(f, A=1, freq0=100, width=1):
    return A if abs(f - freq0) <= width / 2 else 0.


def custom_spatial(x, y, f, a=1., b=0.):
    """An asymmetric response, so that flips and swaps show."""
    return 1. / (1 + a * (x - .3) ** 2 + 2 * abs(y + .1)) + b * f * (x > 0)


def custom_spectral(f, p=1.):
    return 1. + p * f


def vec_spatial(x, y, f, **kw):
    """The same as custom_spatial, in the form that simim wants."""
    x, y, f = [np.asarray(v, dtype=float) for v in (x, y, f)]
    return np.array([[[custom_spatial(i, j, k, **kw) for k in f] for j in y] for i in x])


def vec_spectral(f, **kw):
    return np.array([custom_spectral(k, **kw) for k in np.asarray(f, dtype=float)])


SPATIAL = {'gauss': gauss2, 'spec-gauss': gauss2f, 'custom': custom_spatial}
SPECTRAL = {'gauss': gauss1, 'boxcar': box1, 'custom': custom_spectral}


def arg(kind, name):
    """What to pass to simim for a response of the given name."""
    if name == 'custom':
        return vec_spatial if kind == 'spatial' else vec_spectral
    return name


def kernel(name, kw, pix, freqs, size, norm):
    """Beam images, one per frequency: (size[0], size[1], n)."""
    f = SPATIAL[name]
    k = np.array([[[f((i - (size[0] - 1) / 2) * pix[0], (j - (size[1] - 1) / 2) * pix[1], v, **kw) for v in freqs]
                   for j in range(size[1])] for i in range(size[0])])
    if norm == 'peak':
        k = k / k.max(axis=(0, 1))
    elif norm == 'area':
        k = k / k.sum(axis=(0, 1))
    return k


def smooth(a, k):
    """Zero padded convolution of a (nx, ny, nf) with k along the first two axes."""
    out = np.zeros(a.shape)
    nx, ny = a.shape[:2]
    cx, cy = (k.shape[0] - 1) // 2, (k.shape[1] - 1) // 2
    for i, j in itertools.product(range(k.shape[0]), range(k.shape[1])):
        dx, dy = i - cx, j - cy
        if abs(dx) >= nx or abs(dy) >= ny:
            continue
        out[max(0, dx):nx + min(0, dx), max(0, dy):ny + min(0, dy)] += \
            a[max(0, -dx):nx + min(0, -dx), max(0, -dy):ny + min(0, -dy)] * k[i, j]
    return out


def spectrum(name, kw, freqs):
    return np.array([SPECTRAL[name](v, **kw) for v in freqs])


def make_map(a, spatial, skw, spectral, pkw, pix, freqs, size, norm='peak', beam=None):
    k = kernel(spatial, skw, pix, freqs, size, norm) if beam is None else beam
    w = spectrum(spectral, pkw, freqs)
    return (smooth(a, k) * w).sum(axis=2) / w.sum()


def sample(m, lo, pix, pos):
    """Value of the cell that holds each position; nan outside."""
    out = np.full(len(pos), np.nan)
    for n, p in enumerate(pos):
        i, j = [math.floor((p[d] - lo[d]) / pix[d]) for d in (0, 1)]
        if 0 <= i < m.shape[0] and 0 <= j < m.shape[1]:
            out[n] = m[i, j]
    return out


class Noise:
    """A noise function that depends on all its arguments and records what it was asked for."""

    def __init__(self):
        self.calls = []

    def __call__(self, n, dt, amp=1.):
        self.calls.append((n, dt, amp))
        return amp * dt * np.arange(1, n + 1)


class StubRng:
    """Stands in for a numpy Generator: unit normals are a fixed sequence."""

    def __init__(self):
        self.n = 0

    def z(self, size):
        size = 1 if size is None else int(np.prod(size))
        v = np.array([(-1) ** k * (.25 + .5 * k) for k in range(self.n, self.n + size)])
        self.n += size
        return v

    def standard_normal(self, size=None, dtype=float, out=None):
        return self.z(size).reshape(size) if size is not None else self.z(1)[0]

    def normal(self, loc=0., scale=1., size=None):
        if size is None:
            size = np.broadcast(loc, scale).shape or None
        return loc + scale * self.standard_normal(size)
