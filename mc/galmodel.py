"""Reference galaxy models: value of one halo, without scatter, straight from the published relations."""
import math

CO_FREQ = [115.27120180, 230.53800000, 345.79598990, 461.04076820, 576.26793050, 691.47307630, 806.65180600, 921.79970000,
           1036.91239300, 1151.98545200, 1267.01448600, 1381.99510500, 1496.92290900]
KAM = {'all': ([1.27, 1.11, 1.18, 1.09, 1.05, 1.04, 0.98, 1.00, 1.03, 1.01, 1.06, 0.99, 1.12], [-1.0, 0.6, 0.1, 1.2, 1.8, 2.2, 2.9, 3.0, 2.9, 3.2, 3.1, 3.7, 2.9]),
       'ulirg': ([1.15, 0.66, 0.94, 0.68, 0.96, 1.02, 0.92, 0.91, 0.92, 0.83, 0.86, 0.79, 0.85], [0.2, 4.9, 2.3, 4.9, 2.7, 2.4, 3.5, 3.7, 3.8, 4.7, 4.7, 5.3, 5.0]),
       'not': ([1.05, 1.12, 1.05, 1.09, 1.01, 1.01, 1.00, 1.07, 1.06, 1.12, 1.10, 1.03, 1.23], [0.8, 0.4, 0.9, 1.2, 2.1, 2.3, 2.8, 2.5, 2.7, 2.5, 2.7, 3.4, 2.2])}
LOOZE = {('[CII]', None): (1.01, -6.99, .42), ('[CII]', 'DGS'): (.84, -5.29, .40), ('[CII]', 'dwarfs'): (.80, -5.73, .37), ('[CII]', 'starbursts'): (1.00, -7.06, .27),
         ('[CII]', 'comp/AGN'): (.90, -6.09, .37), ('[CII]', 'high z'): (1.18, -8.52, .40),
         ('[OI]', None): (1.00, -6.79, .42), ('[OI]', 'DGS'): (.94, -6.37, .25), ('[OI]', 'dwarfs'): (.91, -6.23, .27), ('[OI]', 'starbursts'): (.89, -6.05, .20), ('[OI]', 'comp/AGN'): (.76, -5.08, .35),
         ('[OIII]', None): (1.12, -7.48, .66), ('[OIII]', 'DGS'): (.92, -6.71, .30), ('[OIII]', 'dwarfs'): (.92, -6.71, .30), ('[OIII]', 'starbursts'): (.69, -3.89, .23), ('[OIII]', 'comp/AGN'): (.87, -5.46, .35)}
UZGIL = {'[CII]': (.89, 2.44), '[NII]': (1.01, 3.54), '[OI]': (.98, 2.70), '[OIII]88um': (.98, 2.86), '[OIII]52um': (.88, 2.54), '[SiII]': (1.04, 3.15),
         '[SIII]33um': (.99, 3.21), '[SIII]19um': (.97, 3.47), '[NeII]': (.99, 3.26), '[NeIII]': (1.10, 3.72)}
SPINO = {'[CII]': (.89, 2.67), '[NII]': (1.01, 3.80), '[OI]': (.98, 2.95), '[OIII]88um': (.98, 3.11), '[OIII]52um': (.88, 2.76), '[SiII]': (1.04, 3.42),
         '[SIII]33um': (.99, 3.46), '[SIII]19um': (.97, 3.72), '[NeII]': (.99, 2.94), '[NeIII]': (1.10, 4.00)}
SCHAERER = {'ALPINE-uvir': (1.00, 7.00), 'ALPINE-sed': (.84, 7.09), 'ALPINE-uvirx': (1.17, 6.61), 'high z-uvirx': (1.28, 6.43)}
LSUN = 3.828e26

E = math.exp
YANG_CII = {
    'm': lambda z: (12.11 if z <= 0 else 12.11 * z ** -.04105) if z < 4 else 8.69 + 1.26 * z - .143 * z * z if z < 5 else 11.92 - .1068 * z,
    'n': lambda z: -.907 * E(-z / .867) - 3.04 if z < 4 else -5.467 + 1.056 * z - .1133 * z * z if z < 5 else -2.37 - .130 * z,
    'a': lambda z: 1.35 + .450 * z - .0805 * z * z if z < 4 else 6.135 - 1.786 * z + .1837 * z * z if z < 5 else 2.82 - .298 * z + .0196 * z * z,
    'b': lambda z: 2.57 * E(-z / 1.55) + .0575 if z < 4 else .443 - .0521 * z if z < 5 else 1760 * E(-z / .520) + .0782,
    's': lambda z: .32 * E(-z / 1.5) + .18}
YANG_CO = [  # (m, n, a, b) for z<4, 4-5, >5; sigma
    dict(m=((12.13, -.1678), (11.75, -.06833), (11.63, -.04943)), n=((-6.855, .2366, -.05013), (-6.554, -.03725, 0), (-6.274, -.09087)),
         a=((1.642, .1663, -.03238), (3.73, -.833, .0884), (2.56, -.223, .0142)), b=((1.77, 2.72, -.0827), (.598, -.0710), (33.4, .846, .160)), s=(.357, -.0701, .00621)),
    dict(m=((12.12, -.1704), (11.74, -.07050), (11.63, -.05266)), n=((-5.95, .278, -.0521), (-5.57, -.0250, 0), (-5.26, -.0849)),
         a=((1.69, .126, -.0280), (4.557, -1.215, .1300), (2.47, -.210, .0132)), b=((1.80, 2.76, -.0678), (.657, -.0794), (38.3, .841, .169)), s=(.36, -.072, .0064)),
    dict(m=((12.1, -.171), (11.74, -.07228), (11.62, -.0550)), n=((-5.53, .329, -.0570), (-5.06, -.0150, 0), (-4.72, -.0808)),
         a=((1.843, .08405, -.02485), (5.253, -1.502, .1609), (2.53, -.220, .0139)), b=((1.88, 2.74, -.0623), (.707, -.0879), (31.5, .879, .170)), s=(.40, -.083, .0070)),
    dict(m=((12.09, -.1662), (11.73, -.07457), (11.6, -.0529)), n=((-5.35, .404, -.0657), (-4.784, 0, 0), (-4.40, -.0744)),
         a=((2.24, -.0891, 0), (5.74, -1.67, .178), (2.59, -.206, .0120)), b=((2.017, 2.870, -.1127), (.762, -.0984), (41.6, .843, .172)), s=(.42, -.091, .0079)),
    dict(m=((12.12, -.1796), (11.73, -.07789), (11.58, -.05359)), n=((-5.37, .515, -.0802), (-3.81, -.359, .0419), (-4.21, -.0674)),
         a=((2.14, .110, -.0371), (6.12, -1.77, .188), (2.87, -.257, .0157)), b=((2.39, 2.55, -.0890), (.846, -.115), (21.8, .957, .168)), s=(.44, -.085, .0063))]
YANG_CI = [
    dict(m=((1.026, 2.346, 11.20), (8.54, 1.33, -.157), (4.294, 2.479, 10.68)), n=((-1.451, 1.893, -5.046), (-6.96, .750, -.0807), (1.89, 5.73, -6.03)),
         a=((-.741, .739, 1.86), (8.42, -2.91, .320), (1.04, .165)), b=((1.26, -.198), (.837, -.103), (2090, .520, .204)), s=(.39, -.076, .0063)),
    dict(m=((1.135, 2.616, 11.13), (8.823, 1.206, -.1445), (4.37, 2.38, 10.7)), n=((-2.03, 1.80, -4.44), (-4.906, .05632, 0), (1.48, 6.14, -5.31)),
         a=((-1.16, .706, 2.00), (9.275, -3.225, .3543), (1.17, .169)), b=((1.54, -.259), (.94, -.12), (3960, .487, .221)), s=(.46, -.096, .0079))]


def poly(c, z):
    return sum(k * z ** i for i, k in enumerate(c))


def expo(c, z):
    return c[0] * E(-z / c[1]) + c[2]


def yang_pars(line, z):
    if line == 'CII':
        return [YANG_CII[k](z) for k in 'mnabs']
    r = 0 if z < 4 else 1 if z < 5 else 2
    if line.startswith('CO'):
        t = YANG_CO[int(line[2]) - 1]
        b = poly(t['b'][1], z) if r == 1 else expo(t['b'][r], z)
        return [poly(t['m'][r], z), poly(t['n'][r], z), poly(t['a'][r], z), b, poly(t['s'], z)]
    t = YANG_CI[int(line[2]) - 1]
    m = poly(t['m'][1], z) if r == 1 else expo(t['m'][r], z)
    n = poly(t['n'][1], z) if r == 1 else expo(t['n'][r], z)
    a = expo(t['a'][0], z) if r == 0 else poly(t['a'][r], z)
    b = expo(t['b'][2], z) if r == 2 else poly(t['b'][r], z)
    return [m, n, a, b, poly(t['s'], z)]


def yang(mass, z, line):
    m, n, a, b, s = yang_pars(line, z)
    x = mass / 10 ** m
    return 2 * 10 ** n * mass / (x ** -a + x ** b)


def yang_sig(line, z):
    return yang_pars(line, z)[4]


def yang_duty(mass, z):
    if z >= 4:
        return 1.
    return 1 / (1 + (mass / 10 ** (11.73 + .6634 * z)) ** (1.37 - .190 * z + .0215 * z * z))


def power(sfr, a, b, scale):
    """log L_IR = a log L' + b with L_IR = 1e10 sfr."""
    return 0. if sfr == 0 else 10 ** ((math.log10(sfr * 1e10) - b) / a) * scale


def kamenetzky(sfr, j, d_mf, fircor, ulirg):
    lir = sfr / d_mf * 1e10
    a, b = KAM['all' if not ulirg else 'ulirg' if lir > 6e10 else 'not']
    if sfr == 0:
        return 0.
    return 10 ** ((math.log10(lir * fircor) - b[j - 1]) / a[j - 1]) * 4.9e-5 * (CO_FREQ[j - 1] / CO_FREQ[0]) ** 3


def looze(sfr, line, set):
    m, b, s = LOOZE[line, set]
    return 0. if sfr == 0 else 10 ** ((math.log10(sfr) - b) / m)


def erg_line(sfr, d_mf, ab):
    if sfr == 0:
        return 0.
    l41 = sfr / d_mf * 1e10 * LSUN * 1e7 / 1e41       # 1e41 erg/s
    return 10 ** (ab[0] * math.log10(l41) - ab[1]) * 1e41 / 1e7 / LSUN


def schaerer(sfr, set):
    m, b = SCHAERER[set or 'ALPINE-uvirx']
    return sfr ** m * 10 ** b


def padmanabhan(mass, z, m1=2.39e-5, b=.49, n1=4.19e11, a=1.79):
    return (mass / m1) ** b * E(-n1 / mass) * ((1 + z) ** 2.7 / (1 + ((1 + z) / 2.9) ** 5.6)) ** a


def age(z, h=.7, om=.3, tcmb=0.):
    """Age of a flat universe in Gyr (no radiation)."""
    ol = 1 - om
    return 2 / (3 * math.sqrt(ol)) * math.asinh(math.sqrt(ol / om) * (1 + z) ** -1.5) * 9.777922216807891 / h


class Behroozi:
    """Bilinear interpolation in (redshift, mass) of the public release tables."""

    def __init__(self, path):
        t = {}
        for line in open(path):
            if line.strip() and not line.startswith('#'):
                a, m, s, st = [float(v) for v in line.split()]
                t[a, m] = (s, st)
        self.z = sorted({k[0] for k in t})
        self.m = sorted({k[1] for k in t})
        self.t = [{}, {}]
        for a in self.z:
            last = None
            for m in self.m:
                s, st = t[a, m]
                if s > -999.5:
                    last = s
            for m in self.m:
                s, st = t[a, m]
                self.t[0][a, m] = 10 ** (s if s > -999.5 else last)
                self.t[1][a, m] = 10 ** st

    def value(self, kind, z, mass):
        zs, ms = [a - 1 for a in self.z], [10 ** m for m in self.m]

        def loc(v, g):
            v = min(max(v, g[0]), g[-1])
            i = min(max(sum(1 for x in g if x <= v) - 1, 0), len(g) - 2)
            return i, (v - g[i]) / (g[i + 1] - g[i])
        i, u = loc(z, zs)
        j, w = loc(mass, ms)
        f = lambda a, b: self.t[kind][self.z[a], self.m[b]]
        return (1 - u) * ((1 - w) * f(i, j) + w * f(i, j + 1)) + u * ((1 - w) * f(i + 1, j) + w * f(i + 1, j + 1))


def b17_sfms(m, z, m0=.5, m1=.36, a0=1.5, a1=.3, a2=2.5, corr=True):
    l, r = math.log10(m / 1e9), math.log10(1 + z)
    v = l - m0 + a0 * r - a1 * max(0, l - m1 - a2 * r) ** 2
    if corr and z < .5:
        v -= .1 * (.5 - z) / (.5 - .22)
    return 10 ** v


def b17_sffrac(m, z):
    return (1 - .1017 * (1 + z) ** -1.039) * .5 * (1 - math.erf((math.log10(m) - (10.53 + .2232 * z + .0913 * z * z)) / (.8488 + .0418 * z - .0159 * z * z)))


def b17_sbfrac(m, z):
    return .03 if z > 1 else .015 + .015 * z
