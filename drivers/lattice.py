"""Points of an integer lattice (east, north, down) laid on the earth."""
import math

ODD = 8888888
NONE = 9999999
A, E2 = 6378.137, 0.00669437999014


class Lattice(object):
    """U km per step, around (lon0, lat0)"""

    def __init__(self, lon0, lat0, unit):
        self.lon0, self.lat0, self.u = lon0, lat0, unit
        s = math.sin(math.radians(lat0))
        w = math.sqrt(1 - E2 * s * s)
        m = A * (1 - E2) / w ** 3          # meridian and prime vertical radii: the code measures on WGS84
        n = A / w
        self.dlat = math.radians(1) * m
        self.dlon = math.radians(1) * n * math.cos(math.radians(lat0))

    def lonlat(self, p):
        lon = self.lon0 + p[0] * self.u / self.dlon
        if lon > 180:
            lon -= 360
        if lon < -180:
            lon += 360
        return [lon, self.lat0 + p[1] * self.u / self.dlat, p[2] * self.u]

    def raw(self, lon, lat, dep):
        d = (lon - self.lon0 + 180) % 360 - 180
        return [d * self.dlon / self.u, (lat - self.lat0) * self.dlat / self.u, dep / self.u]

    def point(self, lon, lat, dep, tol=0.15):
        v = self.raw(float(lon), float(lat), float(dep))
        out = []
        for x in v:
            n = round(x) if abs(x) < 1e6 else ODD
            out.append(n if abs(n - x) <= tol else ODD)
        return out


def hundredths(v, unit=1.0):
    """100 * v / unit, rounded"""
    if v is None:
        return NONE
    try:
        x = 100 * float(v) / unit
    except (TypeError, ValueError):
        return ODD
    return round(x) if abs(x) < 1e8 else (NONE if x != x else ODD)


def direction(deg):
    """an azimuth as 1000 times its sine and cosine"""
    try:
        r = math.radians(float(deg))
        return [round(1000 * math.sin(r)), round(1000 * math.cos(r))]
    except (TypeError, ValueError, OverflowError):
        return [ODD, ODD]
