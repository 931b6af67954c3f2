"""Map projections of the sphere (Snyder, USGS Professional Paper 1395), in plain arithmetic.

A reference for GEMPAK navigation: code and angles name a plane, the grid nodes are evenly
spaced in that plane between the two corners.
"""

import math

R = 6371200.0
AZIMUTHAL = {'STR': 'stere', 'NPS': 'stere', 'SPS': 'stere', 'ORT': 'ortho', 'NOR': 'ortho',
             'SOR': 'ortho', 'AED': 'aeqd', 'LEA': 'laea', 'GNO': 'gnom'}
CYLINDRICAL = {'CED': 'eqc', 'MCD': 'eqc', 'MER': 'merc'}
CONIC = ('LCC', 'SCC')
LIMIT = {'stere': 140.0, 'ortho': 80.0, 'aeqd': 170.0, 'laea': 160.0, 'gnom': 70.0}


def unit(lon, lat):
    """Point of the unit sphere."""
    lo, la = math.radians(lon), math.radians(lat)
    return math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)


def distance(a, b):
    """Great-circle distance, degrees, of two (lon, lat)."""
    u, v = unit(*a), unit(*b)
    return math.degrees(2 * math.asin(min(1.0, math.dist(u, v) / 2)))


def wrap(d):
    """Longitude difference in [-180, 180)."""
    return (d + 180.0) % 360.0 - 180.0


class Plane:
    """A projection plane: forward and inverse, in units of the sphere's radius."""

    def __init__(self, code, a1, a2, a3):
        self.code, self.lon0 = code, a2
        if code in AZIMUTHAL:
            self.kind = AZIMUTHAL[code]
            self.p0 = math.radians(a1)
        elif code in CYLINDRICAL:
            self.kind = CYLINDRICAL[code]
        else:
            self.kind = 'lcc'
            p1, p2 = math.radians(a1), math.radians(a3)
            t = lambda p: math.tan(math.pi / 4 + p / 2)
            if abs(a1 - a3) < 1e-9:
                self.n = math.sin(p1)
            else:
                self.n = (math.log(math.cos(p1) / math.cos(p2)) / math.log(t(p2) / t(p1)))
            self.f = math.cos(p1) * t(p1) ** self.n / self.n

    def radius(self, c):
        """Distance from the centre of an azimuthal plane at angle c."""
        return {'stere': lambda: 2 * math.tan(c / 2), 'ortho': lambda: math.sin(c),
                'aeqd': lambda: c, 'laea': lambda: 2 * math.sin(c / 2),
                'gnom': lambda: math.tan(c)}[self.kind]()

    def angle(self, r):
        """Angle at a distance from the centre."""
        return {'stere': lambda: 2 * math.atan(r / 2), 'ortho': lambda: math.asin(r),
                'aeqd': lambda: r, 'laea': lambda: 2 * math.asin(r / 2),
                'gnom': lambda: math.atan(r)}[self.kind]()

    def inside(self, x, y):
        """The point is well within what the plane shows."""
        r = math.hypot(x, y)
        if self.kind in LIMIT:
            return r <= self.radius(math.radians(LIMIT[self.kind]))
        if self.kind == 'eqc':
            return abs(y) <= math.pi / 2
        if self.kind == 'merc':
            return abs(y) <= 3.0
        s = math.copysign(1.0, self.n)
        y = self.f * 1.0 - y  # y is counted from the equator on the central meridian
        rho = s * math.hypot(x, y)
        th = math.atan2(s * x, s * y)
        return abs(th) < abs(self.n) * math.pi * 0.95 and abs(rho) > 1e-3 and \
            abs(self.lcclat(rho)) < math.radians(80)

    def lcclat(self, rho):
        return 2 * math.atan((self.f / rho) ** (1 / self.n)) - math.pi / 2

    def inverse(self, x, y):
        """(lon, lat) in degrees of a point of the plane."""
        k = self.kind
        if k == 'eqc':
            return self.lon0 + math.degrees(x), math.degrees(y)
        if k == 'merc':
            return self.lon0 + math.degrees(x), math.degrees(2 * math.atan(math.exp(y))
                                                             - math.pi / 2)
        if k == 'lcc':
            s = math.copysign(1.0, self.n)
            y = self.f - y
            rho = s * math.hypot(x, y)
            th = math.atan2(s * x, s * y)
            return self.lon0 + math.degrees(th / self.n), math.degrees(self.lcclat(rho))
        r = math.hypot(x, y)
        if r == 0:
            return self.lon0, math.degrees(self.p0)
        c = self.angle(r)
        sl = math.cos(c) * math.sin(self.p0) + y * math.sin(c) * math.cos(self.p0) / r
        lat = math.asin(max(-1.0, min(1.0, sl)))
        lon = math.atan2(x * math.sin(c), r * math.cos(self.p0) * math.cos(c)
                         - y * math.sin(self.p0) * math.sin(c))
        return self.lon0 + math.degrees(lon), math.degrees(lat)

    def forward(self, lon, lat):
        """Point of the plane of (lon, lat) in degrees, nearest the central meridian."""
        k = self.kind
        lam, p = math.radians(wrap(lon - self.lon0)), math.radians(lat)
        if k == 'eqc':
            return lam, p
        if k == 'merc':
            return lam, math.log(math.tan(math.pi / 4 + p / 2))
        if k == 'lcc':
            rho = self.f / math.tan(math.pi / 4 + p / 2) ** self.n
            return rho * math.sin(self.n * lam), self.f - rho * math.cos(self.n * lam)
        sp, cp, s0, c0 = math.sin(p), math.cos(p), math.sin(self.p0), math.cos(self.p0)
        X, Y = cp * math.sin(lam), c0 * sp - s0 * cp * math.cos(lam)
        c = math.atan2(math.hypot(X, Y), s0 * sp + c0 * cp * math.cos(lam))
        if math.hypot(X, Y) < 1e-15:
            return 0.0, 0.0
        r = self.radius(c)
        h = math.hypot(X, Y)
        return r * X / h, r * Y / h

    def nodes(self, ll, ur, nx, ny):
        """Grid nodes between two corners given as (lon, lat): rows of (x, y)."""
        x0, y0 = self.forward(*ll)
        x1, y1 = self.forward(*ur)
        if self.kind in ('eqc', 'merc') and nx > 1:
            # Columns run eastward; ends nearer than single precision can tell: once around.
            width = (x1 - x0) % (2 * math.pi)
            x1 = x0 + (width if width > 1.5e-6 else 2 * math.pi)
        fx = lambda i: x0 + (x1 - x0) * i / max(nx - 1, 1)
        fy = lambda j: y0 + (y1 - y0) * j / max(ny - 1, 1)
        return [[(fx(i), fy(j)) for i in range(nx)] for j in range(ny)]
