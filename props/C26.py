"""Earth-centred coordinates."""
import math

import numpy as np

from sx.harness import H

A, E = 6378137.0, 8.1819190842622e-2       # WGS84
B = A * math.sqrt(1 - E * E)
M = 'impactutils.vectorutils.ecef'


def setup(inp):
    if inp.symbolic:
        from sx import ratfun
        ratfun.ON[0] = True
    return inp.mod(M)


def arr(inp, xs):
    return np.array(list(xs), dtype=object if inp.symbolic else float)


def direction(inp, name, b):
    if inp.p.get(name) is not None:
        d = inp.p[name]
        s, c = {180: (0, -1), -180: (0, -1), 90: (1, 0), -90: (-1, 0)}[d]
        return float(d), s, c
    return inp.angle(name + str(len(inp.ctx.inputs) if inp.symbolic else ''), -b, b, 180.0, rational=True)


def place(inp, i):
    lat = direction(inp, 'lat', 90) if inp.p.get('lat') is not None else inp.angle(f'lat{i}', -90, 90, 180.0, rational=True)
    lon = direction(inp, 'lon', 179.99) if inp.p.get('lon') is not None else inp.angle(f'lon{i}', -179.99, 179.99, 180.0, rational=True)
    return lat, lon, inp.real(f'dep{i}', -10, 6000)


def located(inp, xyz, pl):
    """the point is that far below the ellipsoid, along its normal"""
    (lat, s, c), (lon, so, co), dep = pl
    n = (c * co, c * so, s)
    if inp.symbolic:
        from sx import trig
        r = trig.sqrt(1 - E * E * s * s)
        h = A / r
        want = [(h - 1000 * dep) * n[0], (h - 1000 * dep) * n[1], (h * (1 - E * E) - 1000 * dep) * n[2]]
        inp.check(inp.all([inp.close(g, w, 1e-3) for g, w in zip(xyz, want)]), 'position')
        return
    foot = [g + 1000 * dep * k for g, k in zip(xyz, n)]
    on = (foot[0] ** 2 + foot[1] ** 2) / A ** 2 + foot[2] ** 2 / B ** 2
    inp.check(abs(on - 1) < 1e-9, lambda: f'{xyz} for {pl}: foot {foot} is not on the ellipsoid ({on})')
    g = [foot[0] / A ** 2, foot[1] / A ** 2, foot[2] / B ** 2]
    m = math.sqrt(sum(v * v for v in g))
    inp.check(all(abs(v / m - k) < 1e-9 for v, k in zip(g, n)), lambda: f'{xyz} for {pl}: not below the position')


def roots(inp, pls):
    if inp.symbolic:
        from sx import trig
        from sx.vals import real_e
        for (lat, s, c), *_ in pls:
            if not isinstance(s, int):
                # 1 - (E sin)^2, between 1 - E^2 and 1
                trig.known_root(real_e(1 - E * E * s * s), 0.99, 1)


def to_ecef(inp):
    """geographic to Earth-centred"""
    U = setup(inp)
    form = inp.p['form']
    n = 1 if form in ('scalar', 'vector') else 2
    pls = [place(inp, i) for i in range(n)]
    roots(inp, pls)
    if form == 'vector':
        P = inp.mod('impactutils.vectorutils.point').Point(pls[0][1][0], pls[0][0][0], pls[0][2])
        v = inp.call('fromPoint', inp.mod('impactutils.vectorutils.vector').Vector.fromPoint, P)
        r = (v.x, v.y, v.z)
    elif form == 'scalar':
        r = inp.call('latlon2ecef', U.latlon2ecef, pls[0][0][0], pls[0][1][0], pls[0][2])
    else:
        shape = inp.p['shape']
        cols = [arr(inp, xs).reshape(shape) for xs in ([p[0][0] for p in pls], [p[1][0] for p in pls], [p[2] for p in pls])]
        before = [c.copy() for c in cols]
        r = inp.call('latlon2ecef', U.latlon2ecef, *cols)
        inp.check(all(x is y or x == y for a, b in zip(cols, before) for x, y in zip(a.flat, b.flat)), 'arguments changed')
    inp.check(type(r) is tuple and len(r) == 3, 'not three values')
    inp.reach('ecef')
    if n == 1:
        inp.check(all(np.shape(v) == () for v in r), 'not numbers')
        located(inp, r, pls[0])
        return
    inp.check(all(np.shape(v) == tuple(inp.p['shape']) for v in r), lambda: f'shapes {[np.shape(v) for v in r]}')
    for xyz, pl in zip(zip(*[np.asarray(v).flat for v in r]), pls):
        located(inp, xyz, pl)


def radius(lat, dep):
    """distances from the axis and above the equator"""
    s, c = math.sin(math.radians(lat)), math.cos(math.radians(lat))
    h = A / math.sqrt(1 - E * E * s * s)
    return (h - 1000 * dep) * c, (h * (1 - E * E) - 1000 * dep) * s


def from_ecef(inp):
    """Earth-centred to geographic"""
    U = setup(inp)
    form = inp.p['form']
    pls, X = [], []
    for i, (lat, dep) in enumerate(inp.p['at']):
        if inp.p.get('lon') is not None:
            lon, so, co = direction(inp, 'lon', 0)
        else:
            lon, so, co = inp.angle(f'lon{i}', -179.99, 179.99, 180.0, rational=True)
        if dep is None:
            dep = inp.real(f'dep{i}', -10, 700)
            if lat == 0:
                p, z = A - 1000 * dep, 0.0
            else:
                p, z = 0.0, (B - 1000 * dep) * (1 if lat > 0 else -1)
        else:
            p, z = radius(lat, dep)
        x, y = (p * co, p * so) if not (isinstance(p, float) and p == 0) else (0.0, 0.0)
        if inp.symbolic and not isinstance(so, int):
            from sx import trig
            from sx.vals import real_e
            if not (isinstance(p, float) and p == 0):
                trig.known_direction(real_e(y), real_e(x), real_e(so), real_e(co))
        pls.append((lat, (lon, so, co), dep, p))
        X.append((x, y, z))
    if form == 'vector':
        v = inp.mod('impactutils.vectorutils.vector').Vector(*X[0])
        pt = inp.call('toPoint', v.toPoint)
        r = (pt.latitude, pt.longitude, pt.depth)
    elif form == 'scalar':
        r = inp.call('ecef2latlon', U.ecef2latlon, *X[0])
    else:
        cols = [arr(inp, [q[k] for q in X]) for k in range(3)]
        before = [c.copy() for c in cols]
        r = inp.call('ecef2latlon', U.ecef2latlon, *cols)
        inp.check(all(x is y or x == y for a, b in zip(cols, before) for x, y in zip(a.flat, b.flat)), 'arguments changed')
    inp.check(type(r) is tuple and len(r) == 3, 'not three values')
    inp.reach('latlon')
    inp.check(all(np.shape(v) == (() if form in ('scalar', 'vector') else (len(X),)) for v in r), 'shape')
    out = [r] if form in ('scalar', 'vector') else list(zip(*r))
    for (la, lo, de), (lat, (lon, so, co), dep, p) in zip(out, pls):
        inp.check(inp.all([inp.close(la, lat, 1e-6), inp.close(de, dep, 1e-5)]), lambda: f'{la} {lo} {de}: expected {lat} {lon} {dep}')
        inp.check(inp.all([lo > -180 - 1e-9, lo <= 180 + 1e-9]), lambda: f'longitude {lo}')
        if isinstance(p, float) and abs(p) < 1:
            continue
        inp.check(inp.all([inp.close(inp.sin(lo * math.pi / 180), so, 1e-9), inp.close(inp.cos(lo * math.pi / 180), co, 1e-9)]),
                  lambda: f'longitude {lo}, expected {lon}')


AT = [(la, d) for la, d in ((0.0, 0.0), (0.0, 35.5), (12.5, -4.0), (-33.25, 10.0), (45.0, 0.0), (45.0, 700.0), (-67.75, 120.0), (81.5, 3.0),
                            (89.0, 20.0), (-89.99, 0.0), (89.9999, 12.0), (-89.99999, 5.0), (30.0, 300.0), (-60.0, -8.0))]
FE = [dict(form='scalar', at=[a]) for a in AT] + [dict(form='array', at=[AT[2], AT[3]]), dict(form='array', at=[AT[10], AT[6]]), dict(form='vector', at=[AT[8]]),
      dict(form='vector', at=[AT[5]])] + \
     [dict(form=f, at=[(la, None)]) for f in ('scalar', 'vector') for la in (0.0, 90.0, -90.0)] + [dict(form='array', at=[(90.0, None), (0.0, None)])] + \
     [dict(form='scalar', at=[a], lon=o) for a in AT[:4] for o in (180, -90)]
HARNESSES = [
    H(to_ecef, quick=[dict(form='scalar'), dict(form='vector'), dict(form='array', shape=[2]), dict(form='array', shape=[2, 1]), dict(form='scalar', lat=90), dict(form='scalar', lat=-90),
                      dict(form='scalar', lon=180), dict(form='vector', lon=-180), dict(form='scalar', lon=90)], bounds='every latitude, longitude and depth', reach=['ecef'], obj_arrays=True),
    H(from_ecef, quick=FE, thorough=FE + [dict(form='scalar', at=[(la + 0.37, d)]) for la in range(-87, 88, 6) for d in (-8.8, 0.0, 17.3, 650.0)], bounds='every longitude at fourteen latitudes and depths; every depth on the equator and at the poles', reach=['latlon'], obj_arrays=True),
]
ASSUMPTIONS = ['exact arithmetic']
