"""Shared pieces of the rupture harnesses: quadrilaterals on the flat chart."""
from sx import flat

KM = flat.KM
DIRS = {'n': ('0', '1'), 'e': ('1', '0'), 'ne': ('3/5', '4/5'), 'sw': ('-4/5', '-3/5'), 'se': ('24/25', '-7/25'), 'w': ('-1', '0')}
DIPS = {'v': ('0', '1'), 'd': ('4/5', '3/5'), 's': ('7/25', '24/25'), 'f': ('24/25', '7/25')}


def pair(inp, p):
    return inp.const(p[0]), inp.const(p[1])


def pt(inp, *c):
    return [inp.const(str(x)) if isinstance(x, (str, float, int)) else x for x in c]


def angle(p):
    """degrees of a (x, y) pair measured from y towards x"""
    import math
    from fractions import Fraction
    return math.degrees(math.atan2(Fraction(p[0]), Fraction(p[1])))


def origin(inp, **kw):
    import datetime
    O = inp.mod('impactutils.rupture.origin')
    T = inp.mod('impactutils.time.ancient_time')
    d = dict(id='x1', netid='us', network='n', lat=0.0, lon=0.0, depth=5.0, locstring='l', mag=6.0,
             time=T.HistoricTime(2000, 1, 2, 3, 4, 5, 6))
    d.update(kw)
    return O.Origin(d)


def offset(p, d, k):
    """lon/lat/depth triple moved k kilometres along unit (east, north)"""
    return [p[0] + d[0] * k / KM, p[1] + d[1] * k / KM, p[2]]


def down(p, d, dip, w):
    """moved w kilometres down dip, dip direction to the right of d"""
    c, s = dip
    r = offset(p, (d[1], -d[0]), w * c)
    return [r[0], r[1], r[2] + w * s]


def quad(p0, d, dip, length, width, length2=None, skew=0.0):
    p1 = offset(p0, d, length)
    p3 = offset(down(p0, d, dip, width), d, skew)
    p2 = offset(p3, d, length if length2 is None else length2)
    return [p0, p1, p2, p3]


def geojson(polys, ref='ref'):
    return {'type': 'FeatureCollection', 'metadata': {'reference': ref},
            'features': [{'type': 'Feature', 'properties': {'rupture type': 'rupture extent'},
                          'geometry': {'type': 'MultiPolygon', 'coordinates': [polys]}}]}


def closed(pts):
    return [list(p) for p in pts] + [list(pts[0])]


def enu(p):
    return [p[0] * KM, p[1] * KM, -p[2]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def point_close(inp, P, t, tol=1e-6):
    return inp.all([inp.close(P.longitude, t[0], tol), inp.close(P.latitude, t[1], tol), inp.close(P.depth, t[2], tol)])
