"""Reference model of the REST2 direct beam (Gueymard 2003, 2008): tables of coefficients and
one evaluator for the rational functions."""
from math import cos, radians, exp, log

E0 = {"high-frequency": 635.4, "low-frequency": 709.7}
BANDS = ("high-frequency", "low-frequency")
STD_MB = 1013.25
ALBEDO = {"high-frequency": 0.92, "low-frequency": 0.84}

# 1 / (cos Z + a Z**b / (c - Z)**d)
MASS = {
    "rayleigh": (0.48353, 0.095846, 96.741, 1.754),
    "ozone": (1.0651, 0.6379, 101.8, 2.2694),
    "water": (0.10648, 0.11423, 93.781, 1.9203),
    "aerosol": (0.16851, 0.18198, 95.318, 1.9542),
}


def mass(kind, altitude):
    z = 90.0 - altitude
    a, b, c, d = MASS[kind]
    return 1.0 / (cos(radians(z)) + a * z ** b / (c - z) ** d)


def poly(c, x):
    s = 0.0
    for k in reversed(c):
        s = s * x + k
    return s


def ratio(num, den, x):
    return poly(num, x) / poly(den, x)


def rayleigh(band, m):
    if band == BANDS[0]:
        return ratio((1, 1.8169, 0.033454), (1, 2.063, 0.31978), m)
    return ratio((1, -0.010394), (1, 0, -0.00011042), m)


def gas(band, m):
    if band == BANDS[0]:
        return ratio((1, 0.95885, 0.012871), (1, 0.96321, 0.015455), m)
    return ratio((1, 0.27284, -0.00063699), (1, 0.30306), m)


def ozone(band, m, u):
    if band != BANDS[0]:
        return 1.0
    f1 = ratio((0, 10.979, -8.5421), (1, 2.0115, 40.189), u)
    f2 = ratio((0, -0.027589, -0.005138), (1, -2.4857, 13.942), u)
    f3 = ratio((0, 10.995, -5.5001), (1, 1.6784, 42.406), u)
    return ratio((1, f1, f2), (1, f3), m)


def nitrogen(band, m, u):
    if band != BANDS[0]:
        return 1.0
    g1 = ratio((0.17499, 41.654, -2146.4), (1, 0, 22295.0), u)
    g2 = ratio((0, -1.2134, 59.324), (1, 0, 8847.8), u)
    g3 = ratio((0.17499, 61.658, 9196.4), (1, 0, 74109.0), u)
    return min(1.0, ratio((1, g1, g2), (1, g3), m))


def water_coeffs(band, w):
    if band == BANDS[0]:
        return [ratio((0, 0.065445, 0.00029901), (1, 1.2728), w), ratio((0, 0.065687, 0.0013218), (1, 1.2008), w)]
    return [ratio((0, 19.566, -1.6506, 1.0672), (1, 5.4248, 1.6005), w), ratio((0, 0.50158, -0.14732, 0.047584), (1, 1.1811, 1.0699), w),
            ratio((0, 21.286, -0.39232, 1.2692), (1, 4.8318, 1.412), w), ratio((0, 0.70992, -0.23155, 0.096514), (1, 0.44907, 0.75425), w)]


def water(band, m, w):
    c = water_coeffs(band, w)
    if band == BANDS[0]:
        return ratio((1, c[0]), (1, c[1]), m)
    return ratio((1, c[0], c[1]), (1, c[2], c[3]), m)


def wavelength(band, m, alpha, beta):
    u = log(1 + m * beta)
    a = alpha
    if band == BANDS[0]:
        d = (0.57664 - 0.024743 * a, ratio((0.093942, -0.2269, 0.12848), (1, 0.6418), a), ratio((-0.093819, 0.36668, -0.12775), (1, -0.11651), a))
        d3 = ratio((0, 0.15232, -0.087214, 0.012664), (1, -0.90454, 0.26167), a)
        return ratio(d, (1, 0, d3), u)
    e = (ratio((1.183, -0.022989, 0.020829), (1, 0.11133), a), ratio((-0.50003, -0.18329, 0.23835), (1, 1.6756), a), ratio((-0.50001, 1.1414, 0.0083589), (1, 11.168), a))
    e3 = ratio((-0.70003, -0.73587, 0.51509), (1, 4.7665), a)
    return ratio(e, (1, e3), u)


def aerosol_depth(beta, lam, alpha):
    return beta * lam ** -alpha


def forward_scatter(altitude):
    return 1 - exp(-0.6931 - 1.8326 * cos(radians(90 - altitude)))


def scatter_correction(band, m, tau):
    if band == BANDS[0]:
        g = [ratio((3.715, 0.368, 0.036294), (1, 0, 0.0009391), m), ratio((-0.164, -0.72567, 0.20701), (1, 0, 0.001901), m), ratio((-0.052288, 0.31902, 0.17871), (1, 0, 0.0069592), m)]
    else:
        q = m ** 1.5
        g = [poly((3.4352, 0.65267, 0.00034328), m) / (1 + 0.034388 * q), poly((1.231, -1.63853, 0.20667), m) / (1 + 0.1451 * q), poly((0.8889, -0.55063, 0.50152), m) / (1 + 0.14865 * q)]
    return (g[0] + g[1] * tau) / (1 + g[2] * tau)


def rayleigh_forward(band, m):
    return 0.5 * poly((0.89013, -0.049558, 0.000045721), m) if band == BANDS[0] else 0.5


def sky_albedo(band, a, b):
    if band == BANDS[0]:
        return (0.13363 + 0.00077358 * a + b * (0.37567 + 0.22946 * a) / (1 - 0.10832 * a)) / (1 + b * (0.84057 + 0.68683 * a) / (1 - 0.08158 * a))
    return (0.010191 + 0.00085547 * a + b * (0.14618 + 0.062758 * a) / (1 - 0.19402 * a)) / (1 + b * (0.58101 + 0.17426 * a) / (1 - 0.17586 * a))


def direct_normal(band, altitude, p=STD_MB, o3=0.35, no2=0.0002, w=5.0, alpha=1.3, beta=0.6):
    """None where the effective wavelength of the publication is not positive"""
    ma, mo, mw = mass("aerosol", altitude), mass("ozone", altitude), mass("water", altitude)
    mr = mass("rayleigh", altitude) * p / STD_MB
    lam = wavelength(band, ma, alpha, beta)
    if lam <= 1e-3:
        return None
    x = ma * aerosol_depth(beta, lam, alpha)
    if x > 700:
        return None
    return E0[band] * rayleigh(band, mr) * gas(band, mr) * ozone(band, mo, o3) * nitrogen(band, mw, no2) * water(band, mw, w) * exp(-x)
