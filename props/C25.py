"""Distances and azimuths on the sphere."""
import math

import numpy as np

from sx.harness import H

R = 6371.0
E = 'impactutils.extern.openquake.geodetic'


def setup(inp):
    if inp.symbolic:
        from sx import ratfun
        ratfun.ON[0] = True
    return inp.mod(E)


def half(inp, name, b, table=None):
    """half of an angle: (half angle, sine and cosine of the angle); from a Pythagorean triple (of the half) if given"""
    if table is None:
        h, s, c = inp.angle(name, -b, b, 180.0, rational=True)
        return h, 2 * s * c, 1 - 2 * s * s
    s, c, n = table
    deg = math.degrees(math.atan2(s, c))
    if not inp.symbolic:
        return deg, 2 * s * c / n / n, 1 - 2 * s * s / n / n
    h, ss, cc = inp.angle(name, deg - 1e-6, deg + 1e-6, 180.0, values=(f'{s}/{n}', f'{c}/{n}'))
    return h, 2 * ss * cc, 1 - 2 * ss * ss


def places(inp, n, i=''):
    """n positions: latitudes free, longitudes free (differences from the first are known angles);
    all but one of the angles may be given"""
    lat, lon, out = [], [], []
    t = inp.p.get('table', {})
    for k in range(n):
        h, s, c = half(inp, f'lat{i}{k}', inp.p.get('below', 90) / 2, t.get(f'lat{k}'))
        lat.append((2 * h, s, c))
        if k == 0:
            lon.append((inp.real(f'lon{i}', -180, 360), 0, 1))
        else:
            h, s, c = half(inp, f'dlon{i}{k}', 179, t.get(f'dlon{k}'))
            lon.append((lon[0][0] + 2 * h, s, c))
            inp.assume(inp.all([lon[k][0] >= -360, lon[k][0] <= 360]))
    for (a, sa, ca), (o, so, co) in zip(lat, lon):
        out.append((o, a, (ca * co, ca * so, sa)))  # longitude, latitude, direction
    return out


def chord2(p, q):
    return sum((a - b) * (a - b) for a, b in zip(p[2], q[2]))


def arr(inp, xs):
    return np.array(list(xs), dtype=object if inp.symbolic else float)


def lemmas(inp):
    return inp.symbolic and not inp.p.get('table')


def arc_of(inp, p, q, dia):
    """length of the arc between p and q"""
    c2 = chord2(p, q)
    if inp.symbolic:
        from sx import trig
        from sx.vals import real_e
        if lemmas(inp):
            # half the chord of the unit sphere: between 0 and 1
            return dia * trig.arcsin(trig.known_root(real_e(c2 / 4), 0, 1))
        return dia * trig.arcsin(trig.sqrt(c2 / 4))
    return dia * math.asin(min(1.0, math.sqrt(c2) / 2))


def pairs(inp, form):
    """arguments of a call and the pairs of positions it is about"""
    if form == 'scalar':
        P, Q = places(inp, 2)
        return (P[0], P[1], Q[0], Q[1]), [(P, Q)], None
    if form == 'one':  # one position against several
        P, *Q = places(inp, 3)
        return (P[0], P[1], arr(inp, [q[0] for q in Q]), arr(inp, [q[1] for q in Q])), [(P, q) for q in Q], (2,)
    if form == 'grid':
        P, *Q = places(inp, 3)
        a, o = arr(inp, [q[1] for q in Q]).reshape(2, 1), arr(inp, [q[0] for q in Q]).reshape(2, 1)
        return (o, a, P[0], P[1]), [(q, P) for q in Q], (2, 1)
    A, B = places(inp, 2, 'a'), places(inp, 2, 'b')
    return tuple(arr(inp, [x[k][i] for x in (A, B)]) for k in (0, 1) for i in (0, 1)), [A, B], (2,)


def items(inp, r, shape, n):
    if shape is None:
        inp.check(np.shape(r) == (), 'not a number')
        return [r]
    inp.check(np.shape(r) == shape, lambda: f'shape {np.shape(r)}')
    return list(np.asarray(r).reshape(-1))


def arc(inp):
    """geodetic distance"""
    G = setup(inp)
    args, pq, shape = pairs(inp, inp.p['form'])
    kw, dia = {}, 2 * R
    if inp.p.get('dia'):
        kw['diameter'] = dia = inp.p['dia']
    want = [arc_of(inp, p, q, dia) for p, q in pq]
    r = inp.call('distance', G.geodetic_distance, *args, **kw)
    inp.reach('arc')
    for d, w, (p, q) in zip(items(inp, r, shape, len(pq)), want, pq):
        if not inp.symbolic:
            inp.assume(chord2(p, q) < 3.99)
        inp.check(inp.close(d, w, dia * 1e-10), lambda: f'distance {d} between {p[:2]} and {q[:2]} expected {w}')


def space(inp):
    """distance of two points at depths"""
    G = setup(inp)
    args, pq, shape = pairs(inp, inp.p['form'])
    n = len(pq)
    za = [inp.real(f'za{i}', -9, 700) for i in range(n)]
    zb = [inp.real(f'zb{i}', -9, 700) for i in range(n)]
    if shape is None:
        Z = za[0], zb[0]
    elif inp.p['form'] == 'many':
        Z = arr(inp, za), arr(inp, zb)
    else:
        # a number with the single position, an array with the others
        many, one = arr(inp, zb).reshape(shape), za[0]
        Z = (one, many) if inp.p['form'] == 'one' else (many, one)
        za = [one] * n
    want = [arc_of(inp, p, q, 2 * R) for p, q in pq]
    r = inp.call('distance', G.distance, args[0], args[1], Z[0], args[2], args[3], Z[1])
    inp.reach('space')
    for d, w, (p, q), a, b in zip(items(inp, r, shape, n), want, pq, za, zb):
        if not inp.symbolic:
            inp.assume(chord2(p, q) < 3.99)
        dz = a - b
        inp.check(d >= 0, lambda: f'distance {d}')
        inp.check(inp.close(d * d, w * w + dz * dz, 1e-4), lambda: f'distance {d} of {p[:2]}, {a} and {q[:2]}, {b}: arc {w}')


def heading(inp, p, q):
    """sine and cosine of the azimuth of q from p, None if q is at p or opposite"""
    # tangent of the great circle at p: east and north parts of q's direction,
    # times the cosine of p's latitude
    (x, y, z), (u, v, w) = p[2], q[2]
    h2 = x * x + y * y
    east = x * v - y * u
    north = w * h2 - z * (x * u + y * v)
    return h2, east, north


def bearing(inp):
    """azimuth"""
    G = setup(inp)
    form = inp.p['form']
    if inp.p.get('point'):
        pq, shape = [places(inp, 2)], None
    else:
        args, pq, shape = pairs(inp, form)
    want = []
    for p, q in pq:
        h2, east, north = heading(inp, p, q)
        if inp.symbolic:
            from sx import trig
            from sx.vals import real_e
            inp.assume(h2 > 0)
            # east, north divided by the cosine of the latitude are what is looked for
            c = trig.sqrt(h2)
            want.append(trig.known_direction(real_e(east / c), real_e(north / c)))
        else:
            m = math.hypot(east, north) / math.sqrt(h2) if h2 > 1e-12 else 0
            inp.assume(m > 1e-6)
            want.append((east / math.sqrt(h2) / m, north / math.sqrt(h2) / m))
    if inp.p.get('point'):
        P, Q = pq[0]
        M = inp.mod('impactutils.vectorutils.point')
        z = inp.real('z', -5, 700)
        a, b = inp.call('point', M.Point, P[0], P[1]), inp.call('point', M.Point, Q[0], Q[1], z)
        inp.check(inp.all([b.x == Q[0], b.y == Q[1], b.z == z, a.longitude == P[0], a.latitude == P[1], a.z == 0]), 'coordinates')
        r = inp.call('azimuth', a.azimuth, b)
    else:
        r = inp.call('azimuth', G.azimuth, *args)
    inp.reach('azimuth')
    for az, (e, n), (p, q) in zip(items(inp, r, shape, len(pq)), want, pq):
        inp.check(inp.all([az >= 0, az < 360]), lambda: f'azimuth {az}')
        s, c = inp.sin(az * math.pi / 180), inp.cos(az * math.pi / 180)
        inp.check(inp.all([inp.close(e, s, 1e-6), inp.close(n, c, 1e-6)]), lambda: f'azimuth {az} from {p[:2]} to {q[:2]}: expected {math.degrees(math.atan2(e, n)) % 360}')


def same(inp):
    """a position and itself"""
    G = setup(inp)
    P = places(inp, 1)[0]
    d = inp.call('distance', G.geodetic_distance, P[0], P[1], P[0], P[1])
    z = inp.real('z', -9, 700)
    d3 = inp.call('distance', G.distance, P[0], P[1], z, P[0], P[1], inp.const(5))
    az = inp.call('azimuth', G.azimuth, P[0], P[1], P[0], P[1])
    inp.reach('same')
    inp.check(inp.all([inp.close(d, 0, 1e-9), inp.close(d3, abs(z - 5), 1e-9), az >= 0, az < 360]), lambda: f'{d} {d3} {az}')


FORMS = [dict(form=f) for f in ('scalar', 'one', 'grid', 'many')]
TAB = [dict(form='scalar', table=t) for t in (
    dict(lat1=(-5, 12, 13), dlon1=(3, 4, 5)), dict(lat0=(8, 15, 17), dlon1=(-4, 3, 5)), dict(lat0=(5, 12, 13), lat1=(7, 24, 25)),
    dict(lat0=(-9, 40, 41), lat1=(20, 21, 29)), dict(lat0=(0, 1, 1), dlon1=(-5, -12, 13)), dict(lat1=(12, 35, 37), dlon1=(0, 1, 1)))]
HARNESSES = [
    H(arc, quick=FORMS + [dict(form='scalar', dia=2.0), dict(form='one', dia=12756.0)] + TAB, bounds='every latitude and longitude; numbers, one against two, two pairs', reach=['arc'], obj_arrays=True, path_s=100),
    H(space, quick=FORMS, bounds='every position and depth', reach=['space'], obj_arrays=True, path_s=100),
    H(bearing, quick=[dict(f, below=89.99) for f in FORMS + [dict(form='', point=1)]], bounds='every two positions apart, below 89.99 degrees of latitude', reach=['azimuth'], obj_arrays=True, path_s=100),
    H(same, bounds='every position', reach=['same']),
]
ASSUMPTIONS = ['longitude differences below 358 degrees', 'exact arithmetic: rounding at antipodes is outside']
