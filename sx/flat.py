"""A flat chart of the Earth: longitude and latitude are KM kilometres per
degree, depth is depth.  Installed (in symbolic runs and replays alike) in
place of the geodetic conversions so that geometry on top of them becomes
polynomial.  The conversions themselves are separate properties."""
import math

import numpy as np

KM = 100.0


class Point:
    def __init__(self, longitude, latitude, depth=0.0):
        if not depth < 6371.0:
            raise ValueError('The depth must be less than the Earth\'s radius (6371.0 km)')
        if not depth > -8.848:
            raise ValueError('The depth must be greater than the maximum elevation')
        if not (longitude >= -180.0 and longitude <= 180.0):
            raise ValueError('longitude outside range')
        if not (latitude >= -90.0 and latitude <= 90.0):
            raise ValueError('latitude outside range')
        self.longitude, self.latitude, self.depth = longitude, latitude, depth

    @property
    def x(self):
        return self.longitude

    @property
    def y(self):
        return self.latitude

    @property
    def z(self):
        return self.depth

    def azimuth(self, p):
        return azimuth(self.longitude, self.latitude, p.longitude, p.latitude)

    def distance(self, p):
        return distance(self.longitude, self.latitude, self.depth, p.longitude, p.latitude, p.depth)

    def __eq__(self, o):
        return (self.x, self.y, self.z) == (o.x, o.y, o.z)


def latlon2ecef(lat, lon, dep):
    return lon * (KM * 1000), lat * (KM * 1000), -dep * 1000.0


def ecef2latlon(x, y, z):
    return y / (KM * 1000), x / (KM * 1000), -z / 1000.0


SYM = [False]


def _root(x):
    if SYM[0]:
        from . import trig
        from .shims import elementwise
        return elementwise(trig.sqrt)(x)
    return np.sqrt(x)


def geodetic_distance(lons1, lats1, lons2, lats2, diameter=None):
    return _root((lons1 - lons2) * (lons1 - lons2) + (lats1 - lats2) * (lats1 - lats2)) * KM


def distance(lons1, lats1, depths1, lons2, lats2, depths2):
    a, b, c = (lons1 - lons2) * KM, (lats1 - lats2) * KM, depths1 - depths2
    return _root(a * a + b * b + c * c)


def azimuth(lons1, lats1, lons2, lats2):
    dx, dy = lons2 - lons1, lats2 - lats1
    if SYM[0]:
        from . import trig
        a = trig.degrees(trig.arctan2(dx, dy))
        return a + 360 if a < 0 else a
    return np.degrees(np.arctan2(dx, dy)) % 360


def point_at(lon, lat, azi, dist):
    if SYM[0]:
        from . import trig
        s, c = trig.sincos(trig.radians(azi))
    else:
        s, c = math.sin(math.radians(azi)), math.cos(math.radians(azi))
    return lon + dist * s / KM, lat + dist * c / KM


class OrthographicProjection:
    """x, y in km from the middle of the box"""

    def __init__(self, west, east, north, south):
        self.lon0, self.lat0 = (west + east) / 2, (north + south) / 2

    def __call__(self, lons, lats, reverse=False):
        if reverse:
            return lons / KM + self.lon0, lats / KM + self.lat0
        return (lons - self.lon0) * KM, (lats - self.lat0) * KM


def install(inp):
    SYM[0] = inp.symbolic
    if inp.symbolic:
        from . import ratfun
        ratfun.ON[0] = True
    import openquake.hazardlib.geo.geodetic as og
    import openquake.hazardlib.geo.point as op
    import openquake.hazardlib.geo.utils as ou
    ec = inp.mod('impactutils.vectorutils.ecef')
    eg = inp.mod('impactutils.extern.openquake.geodetic')
    inp.stub(op, 'Point', Point)
    inp.stub(ou, 'OrthographicProjection', OrthographicProjection)
    for m in (og, eg):
        for n in ('geodetic_distance', 'distance', 'azimuth', 'point_at'):
            if hasattr(m, n):
                inp.stub(m, n, globals()[n])
    inp.stub(ec, 'latlon2ecef', latlon2ecef)
    inp.stub(ec, 'ecef2latlon', ecef2latlon)
