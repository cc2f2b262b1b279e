"""C25  Abundance matching pairs values of equal cumulative abundance and is consistent in both directions."""
import itertools, math
import numpy as np
from .core import Check

VALS = [1., 2., 3.5, 7.]
EPS = 1e-9
ERR = [dict(missing_pmass_low_p1=-.1), dict(missing_pmass_high_p1=1.5), dict(missing_pmass_low_p2=1.01), dict(missing_pmass_high_p2=-1e-3),
       dict(missing_pmass_low_p1=.6, missing_pmass_high_p1=.6), dict(missing_pmass_low_p2=.9, missing_pmass_high_p2=.2),
       dict(extrapolate_low_p1='zero'), dict(extrapolate_high_p1='max'), dict(extrapolate_low_p2='linear'), dict(extrapolate_high_p2='')]
MODES = [('nan',) * 4, ('flat',) * 4, (-1., -2., -3., -4.), ('none', 'flat', 'nan', 5.)]
OK = [dict(missing_pmass_low_p1=.6, missing_pmass_high_p1=.3), dict(missing_pmass_low_p2=1 / 4, missing_pmass_high_p2=1 / 2), dict(extrapolate_low_p1='flat', extrapolate_high_p2='nan'), dict(extrapolate_low_p2=-1., extrapolate_high_p1='-3')]


class Rv:
    """A distribution known in closed form, limited to a range."""

    def __init__(self, kind, lo, hi):
        from scipy import stats
        self.kind, self.lo, self.hi = kind, lo, hi
        self.rv = {'uniform': stats.uniform(2, 8), 'expon': stats.expon(scale=3.), 'pareto': stats.pareto(1.5, scale=2.)}[kind]
        self.g0, self.g1 = self.G(lo), self.G(hi)

    def G(self, x):
        if self.kind == 'uniform':
            return min(max((x - 2) / 8, 0.), 1.)
        if self.kind == 'expon':
            return 1 - math.exp(-x / 3) if x > 0 else 0.
        return 1 - (x / 2) ** -1.5 if x > 2 else 0.

    def inv(self, q):
        if self.kind == 'uniform':
            return 2 + 8 * q
        if self.kind == 'expon':
            return -3 * math.log(1 - q) if q < 1 else math.inf
        return 2 * (1 - q) ** (-1 / 1.5) if q < 1 else math.inf

    def cum(self, x, low, high):
        """(cumulative abundance, whether it is certain) of a value."""
        if x < self.lo:
            return 0., 'below'
        if x > self.hi:
            return 1., 'above'
        return low + (self.G(x) - self.g0) / (self.g1 - self.g0) * (1 - low - high), 'in'

    def quant(self, c, low, high):
        return self.inv((c - low) / (1 - low - high) * (self.g1 - self.g0) + self.g0)

    def support(self):
        return max(self.lo, self.inv(0)), min(self.hi, self.inv(1))


class Cat:
    def __init__(self, vals):
        self.o = sorted(vals)
        self.lo, self.hi = self.o[0], self.o[-1]

    def cum(self, x, low, high):
        o, n = self.o, len(self.o)
        if x < o[0]:
            return 0., 'below'
        if x > o[-1]:
            return 1., 'above'
        ks = [k for k in range(n) if o[k] == x]
        if ks:
            if len(ks) > 1:
                return ((ks[0] / (n - 1) * (1 - low - high) + low), (ks[-1] / (n - 1) * (1 - low - high) + low)), 'tie'
            f = ks[0]
        else:
            k = max(k for k in range(n) if o[k] < x)
            f = k + (x - o[k]) / (o[k + 1] - o[k])
        return low + f / (n - 1) * (1 - low - high), 'in'

    def quant(self, c, low, high):
        f = (c - low) / (1 - low - high) * (len(self.o) - 1)
        k = min(max(int(f), 0), len(self.o) - 2)
        return self.o[k] + (f - k) * (self.o[k + 1] - self.o[k])

    def support(self):
        return self.lo, self.hi


class C(Check):
    id = 'C25'
    technique = 'exhaustive enumeration of (catalogue or distribution) x distribution x limits x missing masses x order x fill modes x query lists, real matching functions vs. cumulative abundances in closed form'
    rule = 'one case = one pair of populations and missing masses; non-trivial if some query lies strictly inside the matched range'
    assumptions = ('values at exactly the end of the matched range may be the limiting value or the fill value',)
    chunk = 4

    def setup(self):
        from simim.galprops import galprops_am as am
        self.am = am

    def cases(self, tier):
        deep = tier == 'thorough'
        ms = [0., .25, .5] if deep else [0., .25]
        cats = [c for n in ((2, 3, 4) if deep else (2, 3)) for c in itertools.combinations_with_replacement(VALS, n) if len(set(c)) > 1]
        rvs = [('uniform', 0., math.inf), ('uniform', 3., 8.), ('expon', 0., math.inf), ('expon', 1., 6.), ('pareto', 0., math.inf), ('pareto', 2.5, 30.)]
        yield {'errors': True}
        for rv in rvs:
            for m in itertools.product(ms, repeat=4):
                if m[0] + m[1] >= 1 or m[2] + m[3] >= 1:
                    continue
                yield {'rv': rv, 'm': m, 'first': [('cat', c) for c in cats]}
                yield {'rv': rv, 'm': m, 'first': [('rv', r) for r in rvs]}

    def run(self, case, ctx):
        am = self.am
        if 'errors' in case:
            rv = Rv('uniform', 0, math.inf).rv
            for fn, name in ((lambda **k: am.am_dfcat(np.array([1., 2., 3.]), rv, **k), 'am_dfcat'), (lambda **k: am.am_dfdf(rv, rv, **k), 'am_dfdf')):
                for kw, bad in [(k, True) for k in ERR] + [(k, False) for k in OK]:
                    ctx.step()
                    try:
                        fn(**kw)
                        r = None
                    except ValueError:
                        r = ValueError
                    ctx.expect((r is ValueError) == bad, 'errors', lambda: '{}({}) {}'.format(name, kw, 'is accepted' if bad else 'is refused'))
            ctx.interesting()
            return
        ctx.state((case['rv'], case['m'], case['first'][0][0]))
        B = Rv(*case['rv'])
        l1, h1, l2, h2 = case['m']
        kw0 = dict(missing_pmass_low_p1=l1, missing_pmass_high_p1=h1, missing_pmass_low_p2=l2, missing_pmass_high_p2=h2, prop2_min=B.lo, prop2_max=B.hi)
        for kind, spec in case['first']:
            A = Cat(spec) if kind == 'cat' else Rv(*spec)
            for rev, modes in itertools.product((False, True), MODES):
                kw = dict(kw0, reverseorder=rev, **dict(zip(('extrapolate_low_p1', 'extrapolate_high_p1', 'extrapolate_low_p2', 'extrapolate_high_p2'), modes)))
                if kind == 'cat':
                    perms = [spec, spec[::-1]] if modes[0] == 'nan' else [spec]
                    fns = [am.am_dfcat(np.array(p), B.rv, **kw) for p in perms]
                else:
                    fns = [am.am_dfdf(A.rv, B.rv, prop1_min=A.lo, prop1_max=A.hi, **kw)]
                fill = [lim if m == 'flat' else math.nan if m in ('nan', 'none') else float(m) for m, lim in zip(modes, (A.lo, A.hi, B.lo, B.hi))]
                what = '{} {} against {} {}, {}'.format(kind, spec, case['rv'], case['m'], {'rev': rev, 'modes': modes})
                self.direction(ctx, what + ', p2ofp1', [f[0] for f in fns], A, (l1, h1), B, (l2, h2), fill[2:], rev, kind == 'cat')
                self.direction(ctx, what + ', p1ofp2', [f[1] for f in fns], B, (l2, h2), A, (l1, h1), fill[:2], rev, False)

    def once(self, ctx):
        return not any(k == 'array-edge-zero' for k, m in ctx.fails)

    def direction(self, ctx, what, fns, X, mx, Y, my, fill, rev, cat):
        pts = [.5, 1., 1.6, 2., 2.2, 2.75, 3.5, 4.7, 7., 7.5, 9.]
        want = {}
        for x in pts:
            c, where = X.cum(x, *mx)
            cs = c if isinstance(c, tuple) else (c, c)
            if rev:
                cs = (1 - cs[1], 1 - cs[0])
            lo, hi = my[0], 1 - my[1]
            if where == 'in' or where == 'tie':
                # the plain part of a distribution on which nothing is matched
                pass
            if cs[1] < lo - EPS:
                want[x] = ('one', [fill[0]])
            elif cs[0] > hi + EPS:
                want[x] = ('one', [fill[1]])
            elif cs[0] > lo + EPS and cs[1] < hi - EPS and where != 'tie':
                want[x] = ('one', [Y.quant(cs[0], *my)])
                ctx.interesting()
            elif cs[0] > lo + EPS and cs[1] < hi - EPS:
                want[x] = ('range', (Y.quant(cs[0], *my), Y.quant(cs[1], *my)))
            else:
                s = Y.support()
                edge = []
                if cs[0] <= lo + EPS:
                    edge += [fill[0], s[0]]
                if cs[1] >= hi - EPS:
                    edge += [fill[1], s[1]]
                if where == 'tie':
                    want[x] = ('any', None)
                else:
                    want[x] = ('edge', edge)

        def ok(v, x):
            k, w = want[x]
            if k == 'any':
                return True
            if k == 'range':
                return min(w) - 1e-9 <= v <= max(w) + 1e-9
            return any((math.isnan(a) and math.isnan(v)) or a == v or abs(a - v) <= 1e-7 * abs(a) for a in w)
        got = {}
        for f in fns:
            for x in pts:
                v = float(f(x))
                ctx.step()
                ctx.expect(ok(v, x), 'scalar', lambda: '{} of {} is {}, expected {}'.format(what, x, v, want[x]))
                got.setdefault(x, v)
            for xs in [pts, pts[::-1], [pts[3]], []]:
                a = np.array(xs)
                vs = f(a)
                ctx.step()
                ctx.expect(np.shape(vs) == (len(xs),) and np.array_equal(a, xs), 'array', lambda: '{} of {}: {}'.format(what, xs, vs))
                for x, v in zip(xs, vs):
                    v = float(v)
                    if want[x][0] == 'edge' and v == 0 and not ok(v, x):
                        if self.once(ctx):
                            ctx.fail('array-edge-zero', '{} of an array with {} is {} there, expected one of {}'.format(what, x, v, want[x][1]))
                        continue
                    ctx.expect(ok(v, x), 'array', lambda: '{} of {} is {} at {}, expected {}'.format(what, xs, list(vs), x, want[x]))
        # order preserving
        ins = [x for x in pts if want[x][0] == 'one' and not math.isnan(got[x]) and got[x] not in fill]
        for a, b in zip(ins, ins[1:]):
            ctx.expect((got[a] >= got[b] - 1e-9) if rev else (got[a] <= got[b] + 1e-9), 'order', lambda: '{} maps {} to {} and {} to {}'.format(what, a, got[a], b, got[b]))


CHECK = C()
