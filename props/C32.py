"""Rupture and Joyner-Boore distances of ruptures made of quadrilaterals."""
import numpy as np

from sx import flat
from sx.harness import H
from props import rupt


def setup(inp):
    flat.install(inp)
    return inp.mod('impactutils.rupture.quad_rupture').QuadRupture


def clampsq(inp, a, lo, hi):
    """squared distance of a from [lo, hi]"""
    return (a - lo) * (a - lo) if a < lo else (a - hi) * (a - hi) if a > hi else 0 * a


def frame(d, dip):
    """unit vectors along strike, down dip and normal (east, north, up)"""
    c, s = dip
    u = [d[0], d[1], 0]
    v = [d[1] * c, -d[0] * c, -s]
    n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    return u, v, n


def arr(inp, *v, shape=None):
    a = np.array(v, dtype=object if inp.symbolic else float)
    return a if shape is None else a.reshape(shape)


def same(inp, d, dsq, tol=1e-5):
    """d is the square root of dsq"""
    return inp.all([d >= -tol, inp.any([inp.close(d * d, dsq, 1e-3), inp.all([d * d <= (1 + 1e-6) * dsq + 1e-6,
                                                                             d * d >= (1 - 1e-6) * dsq - 1e-6])])])


def rect(inp):
    """one rectangle, site anywhere: closed form in the frame of the rectangle"""
    Q = setup(inp)
    d, dip = rupt.pair(inp, rupt.DIRS[inp.p['dir']]), rupt.pair(inp, rupt.DIPS[inp.p['dip']])
    L, W = inp.real('L', 1, 50), inp.real('W', 1, 30)
    z = inp.real('z', 0, 20)
    q = rupt.quad(rupt.pt(inp, '1/10', '1/5', z), d, dip, L, W)
    if inp.p.get('left'):
        q = [q[1], q[0], q[3], q[2]]
    r = inp.call('construct', Q, rupt.geojson([rupt.closed(q)]), rupt.origin(inp))
    o = rupt.enu(rupt.pt(inp, '1/10', '1/5', z))
    u, v, n = frame(d, dip)
    a, b = inp.real('a', -100, 100), inp.real('b', -100, 100)
    what = inp.p['what']
    if what == 'rrup':
        c = inp.real('c', -100, 100)
        x = [o[i] + a * u[i] + b * v[i] + c * n[i] for i in range(3)]
        inp.assume(inp.all([x[2] > -100, x[2] < 5]))
        want = clampsq(inp, a, 0, L) + clampsq(inp, b, 0, W) + c * c
        lon, lat, dep = arr(inp, x[0] / rupt.KM), arr(inp, x[1] / rupt.KM), arr(inp, -x[2])
        got, var = inp.call('computeRrup', r.computeRrup, lon, lat, dep)
    else:
        # horizontal frame: along strike and to the right of it
        h = [d[1], -d[0]]
        x = [o[i] + a * u[i] + b * h[i] for i in range(2)]
        want = clampsq(inp, a, 0, L) + clampsq(inp, b, 0, W * dip[0])
        lon, lat, dep = arr(inp, x[0] / rupt.KM), arr(inp, x[1] / rupt.KM), arr(inp, inp.const('0'))
        got, var = inp.call('computeRjb', r.computeRjb, lon, lat, dep)
    inp.reach('rect')
    inp.check(var is None and got.shape == (1,), lambda: f'shape {got.shape} variance {var}')
    inp.check(same(inp, got[0], want), lambda: f'{what} {got[0]}, squared distance should be {want}')


def segsq(inp, p, q, x):
    """squared distance of x from the segment p, q"""
    v, w = rupt.sub(q, p), rupt.sub(x, p)
    l, t = rupt.dot(v, v), rupt.dot(w, v)
    e = rupt.sub(x, q)
    return rupt.dot(w, w) if t <= 0 else rupt.dot(e, e) if t >= l else rupt.dot(w, w) - (t * t / l if l > 0 else 0)


def polysq(inp, P, x):
    """squared distance of x from the convex planar polygon P (three-dimensional)"""
    def cross(a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    e = [rupt.sub(P[(i + 1) % 4], P[i]) for i in range(4)]
    n = cross(e[0], rupt.sub(P[2], P[0]))
    nn = rupt.dot(n, n)
    edges = [segsq(inp, P[i], P[(i + 1) % 4], x) for i in range(4)]
    m = edges[0]
    for k in edges[1:]:
        m = k if k < m else m
    if nn == 0:
        return m
    c = rupt.dot(n, rupt.sub(x, P[0]))
    sides = [rupt.dot(cross(n, e[i]), rupt.sub(x, P[i])) for i in range(4)]
    return c * c / nn if all(s >= 0 for s in sides) else m


SHAPES = {
    'skew': [dict(p=('1/10', '1/5', 2), dir='ne', dip='d', L=20, W=10, L2=20, skew=6)],
    'trap': [dict(p=('1/10', '1/5', 2), dir='n', dip='s', L=20, W=10, L2=12, skew=2)],
    'two': [dict(p=('0', '0', 1), dir='n', dip='d', L=20, W=10), dict(p=('1/10', '1/4', 3), dir='e', dip='v', L=15, W=12)],
    'near': [dict(p=('0', '0', 1), dir='se', dip='f', L=10, W=10), dict(p=('1/5', '1/4', 0), dir='w', dip='s', L=15, W=5)],
}


def shapes(inp):
    """trapezoids and several of them: smallest distance to any"""
    Q = setup(inp)
    qs = []
    for s in SHAPES[inp.p['shape']]:
        k = {n: inp.const(str(s[n])) for n in ('L', 'W', 'L2', 'skew') if n in s}
        qs.append(rupt.quad(rupt.pt(inp, *s['p']), rupt.pair(inp, rupt.DIRS[s['dir']]), rupt.pair(inp, rupt.DIPS[s['dip']]),
                            k['L'], k['W'], k.get('L2'), k.get('skew', inp.const('0'))))
    r = inp.call('construct', Q, rupt.geojson([rupt.closed(q) for q in qs]), rupt.origin(inp))
    x = inp.real('x', -60, 60)
    y = inp.const(str(inp.p['y'])) if 'y' in inp.p else inp.real('y', -60, 60)
    what = inp.p['what']
    z = inp.real('z', -5, 30) if what == 'rrup' and inp.p.get('deep') else inp.const('0')
    lon, lat, dep = arr(inp, x / rupt.KM), arr(inp, y / rupt.KM), arr(inp, z)
    X = [x, y, -z]
    if what == 'rrup':
        got, var = inp.call('computeRrup', r.computeRrup, lon, lat, dep)
        want = [polysq(inp, [rupt.enu(p) for p in q], X) for q in qs]
    else:
        got, var = inp.call('computeRjb', r.computeRjb, lon, lat, dep)
        want = [polysq(inp, [rupt.enu(p)[:2] + [0] for p in q], X) for q in qs]
    inp.reach('shapes')
    inp.check(inp.any([same(inp, got[0], w) for w in want]), lambda: f'{what} {got[0]} squared distances {want}')
    inp.check(inp.all([got[0] * got[0] <= w + 1e-3 + 1e-6 * w for w in want]), lambda: f'{what} {got[0]} squared distances {want}')


def layout(inp):
    """several sites in one- and two-dimensional arrays: the element of each site is what it gets alone; Rjb <= Rrup"""
    Q = setup(inp)
    q = rupt.quad(rupt.pt(inp, '1/10', '1/5', 2), rupt.pair(inp, rupt.DIRS['n']), rupt.pair(inp, rupt.DIPS['d']),
                  inp.const('20'), inp.const('10'))
    r = inp.call('construct', Q, rupt.geojson([rupt.closed(q)]), rupt.origin(inp))
    shape = inp.p['shape']
    n = int(np.prod(shape))
    sites = [(('0', '0'), ('1/8', '1/4'), ('1/2', '1/3'), ('1/10', '-1/2'))[i] for i in range(n)]
    lons = [inp.const(s[0]) for s in sites]
    lats = [inp.const(s[1]) for s in sites]
    lats[0] = inp.real('y', -1, 1)
    zero = [inp.const('0')] * n
    A = lambda v: arr(inp, *v, shape=shape)
    for name in ('computeRrup', 'computeRjb'):
        f = getattr(r, name)
        g, var = inp.call(name, f, A(lons), A(lats), A(zero))
        inp.reach('layout')
        inp.check(g.shape == tuple(shape), lambda: f'{name} of shape {g.shape}')
        for i, v in enumerate(g.reshape(-1)):
            one, _ = inp.call(name, f, arr(inp, lons[i]), arr(inp, lats[i]), arr(inp, zero[i]))
            inp.check(inp.close(v, one[0], 1e-9), lambda: f'{name}: element {i} is {v}, alone {one[0]}')
            if name == 'computeRrup':
                lons[i], lats[i]
    rr, _ = r.computeRrup(A(lons), A(lats), A(zero))
    rj, _ = r.computeRjb(A(lons), A(lats), A(zero))
    for a, b in zip(rr.reshape(-1), rj.reshape(-1)):
        inp.check(b <= a + 1e-6, lambda: f'Rjb {b} exceeds Rrup {a}')


def depth(inp):
    """depth of the rupture plane below a point"""
    Q = setup(inp)
    d, dip = rupt.pair(inp, rupt.DIRS[inp.p['dir']]), rupt.pair(inp, rupt.DIPS[inp.p['dip']])
    L, W = inp.const('20'), inp.const('10')
    z = inp.real('z', 0, 20)
    q = rupt.quad(rupt.pt(inp, '1/10', '1/5', z), d, dip, L, W)
    r = inp.call('construct', Q, rupt.geojson([rupt.closed(q)]), rupt.origin(inp))
    a, b = inp.real('a', -10, 40), inp.real('b', -10, 30)
    o = rupt.enu(q[0])
    lon, lat = (o[0] + a * d[0] + b * d[1]) / rupt.KM, (o[1] + a * d[1] - b * d[0]) / rupt.KM
    if inp.p.get('inside'):
        inp.assume(inp.all([a >= 0, a <= L, b >= 0, b <= W * dip[0]]))
        got = inp.call('getDepthAtPoint', r.getDepthAtPoint, lat, lon)
        inp.reach('inside')
        want = z + b * dip[1] / dip[0]
        inp.check(inp.close(got, want, 1e-3), lambda: f'depth {got} expected {want}')
    else:
        inp.assume(inp.any([a < -1, a > L + 1, b < -1, b > W * dip[0] + 1]))
        got = inp.call('getDepthAtPoint', r.getDepthAtPoint, lat, lon)
        inp.reach('outside')
        inp.check(not inp.is_sym(got) and got != got, lambda: f'depth {got} outside the rupture')


J = [dict(dir=d, dip=p, what=w) for w in ('rrup', 'rjb') for d, p in (('n', 'd'), ('ne', 'v'), ('sw', 's'), ('se', 'f'))]
J += [dict(dir='ne', dip='d', what=w, left=1) for w in ('rrup', 'rjb')] + [dict(dir='n', dip='v', what='rjb')]
JS = [dict(shape=s, what=w) for s in SHAPES for w in ('rrup', 'rjb')]
HARNESSES = [
    H(rect, quick=J, bounds='a rectangle of length 1..50 km, width 1..30 km and top depth 0..20 km in five strikes and four '
      'dips, and a site anywhere within 100 km, all symbolic', reach=['rect'], obj_arrays=True),
    H(shapes, quick=JS, bounds='four fixed ruptures (a parallelogram, a trapezoid, two pairs) and a site anywhere within 60 km',
      reach=['shapes'], obj_arrays=True),
    H(layout, quick=[dict(shape=[2]), dict(shape=[1, 2]), dict(shape=[2, 2]), dict(shape=[3, 1])],
      bounds='2 to 4 sites in arrays of five shapes', reach=['layout'], obj_arrays=True),
    H(depth, quick=[dict(dir='n', dip='d', inside=1), dict(dir='se', dip='s', inside=1), dict(dir='ne', dip='f', inside=1),
                    dict(dir='n', dip='d')],
      bounds='a 20 by 10 km rectangle with symbolic top depth, points inside its surface projection or more than 1 km outside',
      reach=['inside', 'outside'], obj_arrays=True),
]
ASSUMPTIONS = ['the geodetic conversions (latitude/longitude to Cartesian, map projection, azimuth, great-circle distance) '
               'are replaced by a flat chart of the Earth, in symbolic runs and replays alike']
