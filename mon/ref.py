"""
Independent reference definitions the monitors compare the library with.

Nothing in here imports openscm; times are integers (seconds since 1970), values floats.
"""
import bisect
import datetime
from fractions import Fraction

EPOCH = datetime.datetime(1970, 1, 1)


def to_seconds(dt):
    d = dt - EPOCH
    return d.days * 86400 + d.seconds


def from_seconds(s):
    return EPOCH + datetime.timedelta(seconds=int(s))


# ---------------------------------------------------------------- time series ------
class OutOfRange(Exception):
    pass


class PiecewiseLinear:
    """piecewise linear function through nodes, with extrapolation rule"""

    def __init__(self, ts, vs, extrapolation, held=None):
        self.ts, self.vs, self.ex = list(ts), list(vs), extrapolation
        self.held = held if held is not None else (vs[0], vs[-1])

    def _segment(self, i, t):
        t0, t1, v0, v1 = self.ts[i], self.ts[i + 1], self.vs[i], self.vs[i + 1]
        return v0 + (v1 - v0) * Fraction(t - t0) / Fraction(t1 - t0)

    def __call__(self, t):
        if t < self.ts[0]:
            if self.ex == "none":
                raise OutOfRange
            return self.held[0] if self.ex == "constant" else self._segment(0, t)
        if t > self.ts[-1]:
            if self.ex == "none":
                raise OutOfRange
            return self.held[1] if self.ex == "constant" else self._segment(len(self.ts) - 2, t)
        i = min(max(bisect.bisect_right(self.ts, t) - 1, 0), len(self.ts) - 2)
        return self._segment(i, t)

    def integral(self, a, b):
        """exact integral over [a, b] (values are Fractions)"""
        if self.ex == "none" and (a < self.ts[0] or b > self.ts[-1]):
            raise OutOfRange
        cuts = [a] + [t for t in self.ts if a < t < b] + [b]
        total = Fraction(0)
        for lo, hi in zip(cuts, cuts[1:]):
            mid = (Fraction(lo) + Fraction(hi)) / 2
            total += self(mid) * (Fraction(hi) - Fraction(lo))
        return total


def frac(vs):
    return [Fraction(float(v)) for v in vs]


def convert_points(src, values, tgt, extrapolation="none"):
    f = PiecewiseLinear(src, frac(values), extrapolation)
    return [float(f(t)) for t in tgt]


def average_function(src, values, extrapolation="none"):
    """edges: mean of adjacent averages; middles keep each period's average"""
    v = frac(values)
    n = len(v)
    edges = [None] * (n + 1)
    for i in range(1, n):
        edges[i] = (v[i - 1] + v[i]) / 2
    edges[0] = 2 * v[0] - edges[1]
    edges[n] = 2 * v[-1] - edges[n - 1]
    ts, vs = [], []
    for i in range(n):
        ts += [Fraction(src[i]), Fraction(src[i] + src[i + 1]) / 2]
        # mean over the period = (edge_l + 2 * middle + edge_u) / 4
        vs += [edges[i], (4 * v[i] - edges[i] - edges[i + 1]) / 2]
    ts.append(Fraction(src[n]))
    vs.append(edges[n])
    return PiecewiseLinear(ts, vs, extrapolation, held=(v[0], v[-1]))


def convert_averages(src, values, tgt, extrapolation="none"):
    f = average_function(src, values, extrapolation)
    return [float(f.integral(a, b) / (b - a)) for a, b in zip(tgt, tgt[1:])]


def convert(kind, src, values, tgt, extrapolation="none"):
    if kind == "point":
        return convert_points(src, values, tgt, extrapolation)
    return convert_averages(src, values, tgt, extrapolation)


# ---------------------------------------------------------------- units ------------
class U:
    """a unit: base = scale * x + offset"""

    def __init__(self, name, scale, offset=0.0):
        self.name, self.scale, self.offset = name, scale, offset

    def __repr__(self):
        return self.name


CO2 = 12.0 / 44.0
YEAR = 365.25 * 86400.0
FAMILIES = {
    "temperature": [
        U("K", 1.0), U("degC", 1.0, 273.15), U("degF", 5.0 / 9.0, 273.15 - 32 * 5.0 / 9.0),
        U("mK", 1e-3), U("kelvin", 1.0), U("degreeC", 1.0, 273.15), U("kK", 1e3),
    ],
    "emissions": [
        U("GtC/a", 1e15 / YEAR), U("MtC/yr", 1e12 / YEAR), U("tC/a", 1e6 / YEAR), U("GtCO2/a", 1e15 * CO2 / YEAR),
        U("Mt CO2 / yr", 1e12 * CO2 / YEAR), U("kgC/s", 1e3), U("g C/d", 1 / 86400.0), U("PgC/annum", 1e15 / YEAR),
        U("ktCO2/a", 1e9 * CO2 / YEAR),
    ],
    "mass": [U("GtC", 1e15), U("MtC", 1e12), U("tCO2", 1e6 * CO2), U("kg C", 1e3), U("PgC", 1e15), U("GtCO2", 1e15 * CO2)],
    "forcing": [U("W/m^2", 1.0), U("mW/m^2", 1e-3), U("kW/m**2", 1e3), U("W/km^2", 1e-6), U("J/s/m^2", 1.0)],
    "concentration": [U("ppm", 1e6), U("ppb", 1e3), U("ppt", 1.0)],
    "length": [U("m", 1.0), U("km", 1e3), U("mm", 1e-3), U("inch", 0.0254)],
    "dimensionless": [U("", 1.0), U("dimensionless", 1.0)],
    "energy_rate": [U("EJ/yr", 1e18 / YEAR), U("W", 1.0), U("GW", 1e9), U("J/d", 1 / 86400.0), U("kW", 1e3), U("MJ/h", 1e6 / 3600)],
}
LINEAR = [k for k in FAMILIES if k != "temperature"]


def uconv(v, a, b):
    """value(s) v from unit a into unit b"""
    return (a.scale * v + a.offset - b.offset) / b.scale


def utol(v, a, b, stored):
    """absolute tolerance of a conversion a -> stored -> b of values of size v (in a)"""
    size = abs(uconv(v, a, b))
    size += (abs(a.offset) + abs(b.offset) + abs(stored.offset)) / b.scale
    return 1e-9 * size + 2e-14 * (stored.scale + a.scale + b.scale) / b.scale
