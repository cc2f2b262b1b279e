"""C26  Luminosity and mass functions are proper distributions: integral, cdf, pdf and ppf belong together."""
import itertools, math
import numpy as np
from .core import Check

ALPHA = [-2.5, -2., -1.82, -1.3, -1., -.43, 0., .5]
RATIO = [.2, 1., 100., 1e5]
XMIN = [1e8, 3.7, 10 ** 8.5]
QS = [0., 1e-6, .1, .5, .9, 1 - 1e-6, 1.]


def phi(kind, p, x):
    """Number density, per dx for Schechter functions and per dlog10(x) for the others."""
    u = x / p['x0']
    if kind == 'schechter':
        return p['phi0'] * u ** p['alpha'] * np.exp(-u) / p['x0']
    if kind == 'double':
        return (p['phi1'] * u ** p['alpha1'] + p['phi2'] * u ** p['alpha2']) * np.exp(-u) / p['x0']
    if kind == 'modified':
        return p['phi0'] * u ** (1 - p['alpha']) * np.exp(-np.log10(1 + u) ** 2 / (2 * p['sigma'] ** 2))
    return p['phi0'] / (u ** p['alpha'] + u ** p['beta'])


def dens(kind, p, x):
    """Number density per dln(x)."""
    return phi(kind, p, x) * (x if kind in ('schechter', 'double') else 1 / math.log(10))


def integral(kind, p, xs):
    """Integral above each of the points, by Simpson's rule in ln(x)."""
    top = max(60 * p['x0'], p['xmin'] * 4) if kind in ('schechter', 'double') else p['xmin'] * 1e20
    out = []
    for x in xs:
        lo = math.log(max(x, p['xmin']))
        hi = math.log(top)
        if hi <= lo:
            hi = lo + 3
        t = np.linspace(lo, hi, 40001)
        with np.errstate(all='ignore'):
            f = dens(kind, p, np.exp(t))
        out.append((t[1] - t[0]) / 3 * (f[0] + f[-1] + 4 * f[1:-1:2].sum() + 2 * f[2:-1:2].sum()))
    return np.array(out)


class C(Check):
    id = 'C26'
    technique = 'exhaustive enumeration of distributions (kind x parameters) x every list of up to 3 points or probabilities x scalar/array forms, the real distributions vs. direct quadrature'
    rule = 'one case = one distribution; non-trivial if its integral is finite and the points differ'
    assumptions = ('quadrature with 40001 points', 'power-law-tailed functions are integrated over 20 decades, as documented by their support')
    chunk = 2
    needs_root = True

    def setup(self):
        from simim.galprops import galprops_am as am
        self.gen = {'schechter': am.schechter_gen(), 'double': am.double_schechter_gen(), 'modified': am.modified_schechter_gen(), 'dpl': am.double_power_law_gen()}

    def cases(self, tier):
        deep = tier == 'thorough'
        xm = XMIN if deep else XMIN[:2]
        n = 3 if deep else 2
        for xmin, r in itertools.product(xm, RATIO):
            for a in ALPHA + ([-3., -2.01, -1.7, -.99, -1.01, 1., 2.] if deep else []):
                yield {'kind': 'schechter', 'p': dict(x0=xmin * r, alpha=a, phi0=2e-3, xmin=xmin), 'n': n}
            for a, b in itertools.product(ALPHA, repeat=2) if deep else itertools.combinations_with_replacement(ALPHA, 2):
                for f in ((1e-3, 4e-4), (0., 4e-4), (1e-3, 0.)):
                    yield {'kind': 'double', 'p': dict(x0=xmin * r, alpha1=a, phi1=f[0], alpha2=b, phi2=f[1], xmin=xmin), 'n': n}
            for a, s in itertools.product((.5, 1., 1.2, 1.8), (.2, .5, 1.)):
                yield {'kind': 'modified', 'p': dict(phi0=2e-3, x0=xmin * r, alpha=a, sigma=s, xmin=xmin), 'n': n}
            for a, b in ((.5, 2.), (2., .5), (.2, 1.), (1., 4.), (1., 1.), (0., 1.5)):
                yield {'kind': 'dpl', 'p': dict(phi0=2e-3, x0=xmin * r, alpha=a, beta=b, xmin=xmin), 'n': n}

    def run(self, case, ctx):
        kind, p = case['kind'], case['p']
        g = self.gen[kind]
        f = g(**p)
        pts = sorted({p['xmin'] * k for k in (.1, .999, 1., 1.001, 3., 50.)} | {p['x0'] * k for k in (.3, 1., 4.)})
        top = 40 * p['x0'] if kind in ('schechter', 'double') else math.inf
        pts = [x for x in pts if x <= top]
        norm = integral(kind, p, [p['xmin']])[0]
        I = dict(zip(pts, integral(kind, p, pts)))
        cdf = {x: 0. if x <= p['xmin'] else 1 - I[x] / norm for x in pts}
        with np.errstate(all='ignore'):
            lf = {x: 0. if x < p['xmin'] else float(phi(kind, p, x)) for x in pts}
            pdf = {x: 0. if x < p['xmin'] else float(dens(kind, p, x)) / x / norm for x in pts}
        table = {'lum_function': (lambda v: g.lum_function(v, **p), lf, 1e-6, 0), 'lum_function_int': (lambda v: g.lum_function_int(v, **p), I, 2e-3 if kind in ('modified', 'dpl') else 1e-5, 1e-6 * norm),
                 'cdf': (f.cdf, cdf, 0, 5e-4 if kind in ('modified', 'dpl') else 1e-6), 'pdf': (f.pdf, pdf, 2e-3 if kind in ('modified', 'dpl') else 1e-5, 1e-12 * pdf[p['xmin']]),
                 'sf': (f.sf, {x: 1 - cdf[x] for x in pts}, 0, 5e-4 if kind in ('modified', 'dpl') else 1e-6)}
        ctx.interesting(norm > 0)
        for name, (fn, want, rel, ab) in table.items():
            if p['xmin'] in want and name in ('pdf', 'lum_function') and kind in ('x',):
                continue

            def check(v, xs, how):
                got = np.asarray(fn(v), dtype=float)
                ctx.step()
                w = np.array([want[x] for x in xs]).reshape(np.shape(v))
                ctx.expect(got.shape == w.shape, 'shape', lambda: '{} of {} {} at {} ({}) has shape {}'.format(name, kind, p, v, how, got.shape))
                ok = np.abs(got - w) <= rel * np.abs(w) + ab + 1e-300
                ctx.expect(np.all(ok), name, lambda: '{} of {} {} at {} ({}): {} expected {}'.format(name, kind, p, v, how, got, w))
            for x in pts:
                check(x, [x], 'scalar')
                check(np.float64(x), [x], 'numpy scalar')
            for n in range(0 if name in ('cdf', 'pdf', 'sf') else 1, case['n'] + 1):
                for xs in itertools.product(pts, repeat=n):
                    a = np.array(xs)
                    check(a, xs, 'array')
                    ctx.expect(np.array_equal(a, xs), 'input', lambda: '{} changes its input {} to {}'.format(name, xs, a))
            check(np.array(pts).reshape(1, -1), pts, '2-d')
            check(np.array(pts[::-1]), pts[::-1], 'descending')
        # quantiles
        one = {}
        for q in QS:
            one[q] = float(f.ppf(q))
            back = float(f.cdf(one[q]))
            ctx.step(2)
            ctx.expect(one[q] >= p['xmin'] * (1 - 1e-9), 'ppf', lambda: 'ppf({}) of {} {} is {}, outside its support'.format(q, kind, p, one[q]))
            ctx.expect(abs(back - q) <= 2e-4, 'ppf', lambda: 'cdf(ppf({})) of {} {} is {}'.format(q, kind, p, back))
            if 0 < q < 1:
                true = 1 - integral(kind, p, [one[q]])[0] / norm
                ctx.expect(abs(true - q) <= 1e-3, 'ppf', lambda: 'ppf({}) of {} {} is {}, where the cumulative distribution is {}'.format(q, kind, p, one[q], true))
        for n in range(1, case['n'] + 1):
            for qs in itertools.product(QS, repeat=n):
                got = np.asarray(f.ppf(np.array(qs)), dtype=float)
                ctx.step()
                ctx.expect(got.shape == (n,) and np.allclose(got, [one[q] for q in qs], rtol=1e-9), 'ppf', lambda: 'ppf({}) of {} {}: {} instead of {}'.format(qs, kind, p, got, [one[q] for q in qs]))
        r = f.rvs(size=5, random_state=3)
        ctx.expect(r.shape == (5,) and np.all(r >= p['xmin'] * (1 - 1e-9)), 'rvs', lambda: 'random values of {} {}: {}'.format(kind, p, r))
        ctx.state((kind, tuple(sorted(p.items()))))


CHECK = C()
