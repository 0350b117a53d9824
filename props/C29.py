"""Rupture dictionaries: what is accepted, as what, and what comes back."""
import copy
import json
import logging
import os

import numpy as np

from sx import flat
from sx.harness import H
from props import rupt


def setup(inp):
    flat.install(inp)
    logging.disable(logging.CRITICAL)
    return inp.mod('impactutils.rupture.factory')


def cls(inp, name):
    m = {'Quad': 'quad', 'Edge': 'edge', 'Point': 'point'}[name]
    return getattr(inp.mod(f'impactutils.rupture.{m}_rupture'), name + 'Rupture')


def blind(inp):
    """edge ruptures without their representative strike and dip (see the check of edge ruptures)"""
    E = cls(inp, 'Edge')
    if hasattr(E, '_computeStrikeDip'):
        inp.patch(E, '_computeStrikeDip', lambda self: None)


def kind(inp, r):
    for n in ('Quad', 'Edge', 'Point'):
        if isinstance(r, cls(inp, n)):
            return n


def snap(d):
    return copy.deepcopy(d)


def same(inp, a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and inp.all([same(inp, a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and inp.all([same(inp, x, y) for x, y in zip(a, b)])
    return a == b


def store(inp, d, pretty=0):
    """a JSON file holding d"""
    path = os.path.join(inp.scratch(), 'rup.json')
    if inp.symbolic:
        import builtins
        inp.override(builtins.open, lambda p, *a, **k: Handle(d) if p == path else missing(p))
        inp.override(json.load, lambda f, *a, **k: snap(f.read()))
        inp.override(json.loads, lambda t, *a, **k: snap(t))
    else:
        with open(path, 'w') as f:
            json.dump(d, f)
    return path


def missing(p):
    raise FileNotFoundError(p)


class Handle:
    def __init__(self, d):
        self.d = d

    def read(self, *a):
        return self.d

    def readlines(self):
        return ['{\n']

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


TOP = [('0', '0'), ('0.2', '0'), ('0.5', '0')]


def corners(n, w='0.1', zt='2', zb='14'):
    """n corners along the top, then back along the bottom"""
    t = [[x, y, zt] for x, y in TOP[:n]]
    b = [[x, '-' + w, zb] for x, y in TOP[:n]]
    return t, b


def classify(inp):
    """quadrilaterals with level edges and corners in a plane, or edges"""
    F = setup(inp)
    blind(inp)
    n, which = inp.p['n'], inp.p['which']
    t, b = corners(n, inp.p.get('w', '0.1'))
    t, b = [rupt.pt(inp, *p) for p in t], [rupt.pt(inp, *p) for p in b]
    pts = t + b[::-1]
    k, lo, hi = inp.p['vary']
    v = inp.real('v', lo, hi)
    c = (t if which[0] == 't' else b)[int(which[1])]
    c[k] = c[k] + v
    d = rupt.geojson([rupt.closed(pts)])
    if inp.p.get('lead'):
        # an impeccable first polygon
        q = [rupt.pt(inp, *p) for p in (('-1', '0', '1'), ('-0.8', '0', '1'), ('-0.8', '0', '9'), ('-1', '0', '9'))]
        d = rupt.geojson([rupt.closed(q), rupt.closed(pts)])
    if inp.p['file']:
        r = inp.call('rupture', F.get_rupture, rupt.origin(inp), store(inp, d))
    else:
        r = inp.call('rupture', F.rupture_from_dict_and_origin, d, rupt.origin(inp))
    got = kind(inp, r)
    inp.reach(got)
    ok, sure = True, True
    for i in range(n - 1):
        q = [t[i], t[i + 1], b[i + 1], b[i]]
        for x, y in ((0, 1), (2, 3)):
            dz = q[x][2] - q[y][2]
            ok = inp.all([ok, dz <= 0.05, dz >= -0.05])
            sure = inp.all([sure, inp.any([dz > 0.0500001, dz < 0.0499999]), inp.any([dz < -0.0500001, dz > -0.0499999])])
        e = [rupt.enu(p) for p in q]
        u, w = rupt.sub(e[1], e[0]), rupt.sub(e[3], e[0])
        nrm = (u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0])
        off = rupt.dot(nrm, rupt.sub(e[2], e[0]))
        bot = rupt.sub(e[3], e[2])
        # off^2 <= (5% of the bottom edge)^2 |n|^2
        lhs, rhs = off * off, rupt.dot(bot, bot) * rupt.dot(nrm, nrm) / 400
        ok = inp.all([ok, lhs <= rhs])
        sure = inp.all([sure, inp.any([lhs <= rhs * 0.999999, lhs >= rhs * 1.000001])])
    if not sure:
        return
    inp.check(got == ('Quad' if ok else 'Edge'), lambda: f'{[[str(x) for x in p] for p in pts]} read as {got}')


def points(inp):
    """point ruptures and no rupture at all"""
    F = setup(inp)
    o = rupt.origin(inp, lat=inp.real('lat', -1, 1), lon=inp.real('lon', -1, 1), depth=inp.real('dep', 0, 50))
    how = inp.choice('how', ['none', 'dict', 'file'])
    d = rupt.geojson([])
    d['features'][0]['geometry'] = {'type': 'Point', 'coordinates': [inp.real('x', -1, 1), inp.real('y', -1, 1), inp.real('z', 0, 9)]}
    before = snap(d)
    if how == 'none':
        r = inp.call('none', F.get_rupture, o)
    elif how == 'dict':
        r = inp.call('dict', F.rupture_from_dict_and_origin, d, o)
    else:
        r = inp.call('file', F.get_rupture, o, store(inp, d))
    inp.reach('point')
    inp.check(kind(inp, r) == 'Point' and r.getOrigin() is o, lambda: f'{how}: {r}')
    inp.check(same(inp, d, before), 'dictionary changed')
    _, e = inp.raises(F.get_rupture, inp.choice('what', [{}, None, 'us1']))
    inp.check(isinstance(e, TypeError), lambda: f'{e!r}')


def good(inp):
    t, b = corners(2)
    return rupt.geojson([rupt.closed([[float(x) for x in p] for p in t + b[::-1]])])


def reject(inp):
    """dictionaries that are no rupture"""
    F = setup(inp)
    d = good(inp)
    f = d['features'][0]
    ring = f['geometry']['coordinates'][0][0]
    what = inp.p['what']
    word = lambda *no: avoid(inp, inp.string('w', 0, 3, 'aFPo'), no)
    if what == 'type':
        d['type'] = word('FeatureCollection')
    elif what == 'feature':
        f['type'] = word('Feature')
    elif what == 'geometry':
        f['geometry']['type'] = inp.choice('g', [word('Point'), 'Polygon', 'MultiPoint', 'multipolygon'])
    elif what == 'features':
        d['features'] = [f] * inp.choice('k', [0, 2, 3])
    elif what == 'reference':
        del d['metadata']['reference']
    elif what == 'coordinates':
        del f['geometry']['coordinates']
    elif what == 'even':
        ring.insert(inp.choice('k', [1, 2, 3, 4]), [inp.real('x', -1, 1), inp.real('y', -1, 1), inp.real('z', 0, 20)])
    elif what == 'open':
        k = inp.choice('k', [0, 1, 2])
        v = inp.real('v', -1, 1)
        inp.assume(inp.no(v == ring[0][k]))
        ring[4][k] = v
    elif what == 'upside':
        # some pair of corners with the first one not above the second
        k = inp.choice('k', [0, 1])
        z = inp.real('z', 0, 20)
        w = inp.real('w', 0, 20)
        inp.assume(z >= w)
        ring[k][2], ring[3 - k][2] = z, w
        ring[4] = list(ring[0])
    if inp.flag('second'):
        c = good(inp)['features'][0]['geometry']['coordinates'][0][0]
        if what in ('even', 'open', 'upside'):
            f['geometry']['coordinates'][0].insert(0, c)
    o = rupt.origin(inp)
    r, e = inp.raises(F.rupture_from_dict_and_origin, snap(d), o)
    inp.reach('rejected')
    inp.check(e is not None, lambda: f'{what}: {d} accepted as {r}')
    d2 = snap(d)
    for k, v in dict(id='x', netid='us', network='', lat=0.0, lon=0.0, depth=1.0, locstring='', mag=5.0, time='2000-01-02T03:04:05.000006Z').items():
        d2['metadata'][k] = v
    r, e = inp.raises(F.rupture_from_dict, d2)
    inp.check(e is not None, lambda: f'{what}: {d2} accepted as {r}')
    if not (inp.symbolic and what in ('type', 'feature', 'geometry')):
        r, e = inp.raises(F.get_rupture, o, store(inp, d))
        inp.check(isinstance(e, (IOError, ValueError)), lambda: f'{what}: file accepted as {r}, {e!r}')


def avoid(inp, w, no):
    inp.assume(inp.all([inp.no(w == n) for n in no]))
    return w


def near(inp, a, b):
    if isinstance(a, (list, tuple, np.ndarray)):
        return len(a) == len(b) and inp.all([near(inp, x, y) for x, y in zip(a, b)])
    if isinstance(a, float) and a != a:
        return isinstance(b, float) and b != b
    if isinstance(b, float) and b != b:
        return False
    return inp.close(a, b, 1e-9)


def roundtrip(inp):
    """saved and loaded again"""
    F = setup(inp)
    blind(inp)
    T = inp.mod('impactutils.time.ancient_time')
    name = inp.p['cls']
    ov = dict(lat=inp.real('lat', -1, 1), lon=inp.real('lon', -1, 1), depth=inp.real('dep', 0, 50), mag=inp.real('mag', 4, 9),
              locstring=inp.string('loc', 0, 2, 'ab'), id=inp.string('id', 1, 2, 'u1'),
              time=T.HistoricTime(*inp.choice('t', [(2000, 1, 2, 3, 4, 5, 6), (869, 7, 13), (1906, 4, 18, 13, 12, 21)])))
    if inp.flag('mech'):
        ov['mech'] = inp.choice('m', ['RS', 'NM'])
    if inp.flag('evref'):
        ov['reference'] = 'event source'
    o = rupt.origin(inp, **ov)
    ref = inp.string('ref', 0, 2, 'Ax')
    polys = []
    for g in range(inp.p.get('polys', 1)):
        x = [inp.real(f'x{g}{i}', -1, 1) for i in range(4)]
        y = [inp.real(f'y{g}{i}', -1, 1) for i in range(4)]
        zt, zb = inp.real(f'zt{g}', 0, 9), inp.real(f'zb{g}', 10, 20)
        polys.append(rupt.closed([[x[0], y[0], zt], [x[1], y[1], zt], [x[2], y[2], zb], [x[3], y[3], zb]]))
    kw = {}
    if name == 'Point':
        r = cls(inp, 'Point')(o, ref)
    elif name == 'Edge':
        kw = dict(mesh_dx=inp.real('dx', 0.1, 5))
        r = inp.call('edge', cls(inp, 'Edge'), rupt.geojson(polys, ref), o, **kw)
    else:
        q = rupt.quad(rupt.pt(inp, x[0], y[0], zt), rupt.pair(inp, rupt.DIRS[inp.p['dir']]), rupt.pair(inp, rupt.DIPS['d']), inp.real('L', 1, 90), inp.const('10'))
        polys = [rupt.closed(q)]
        r = inp.call('quad', cls(inp, 'Quad'), rupt.geojson(polys, ref), o)
    path = os.path.join(inp.scratch(), 'out.json')
    if inp.symbolic:
        import builtins
        disk = []
        inp.override(builtins.open, lambda p, *a, **k: Handle(None))
        inp.override(json.dump, lambda d, f, *a, **k: disk.append(jsonable(inp, d)))
        inp.call('save', r.writeGeoJson, path)
        d = disk[0]
    else:
        inp.call('save', r.writeGeoJson, path)
        with open(path) as f:
            d = json.load(f)
    before = snap(d)
    s = inp.call('load', F.rupture_from_dict, d)
    inp.reach(name)
    inp.check(same(inp, d, before), 'dictionary changed')
    inp.check(kind(inp, s) == name, lambda: f'{name} loaded as {kind(inp, s)}')
    inp.check(inp.all([r.getReference() == ref, s.getReference() == ref]), lambda: f'reference {ref!r} loaded as {s.getReference()!r}')
    if name != 'Point':
        inp.check(inp.all([near(inp, list(getattr(s, k)), list(getattr(r, k))) for k in ('lons', 'lats', 'depths')]), 'outline')
    if name == 'Edge':
        inp.check(s._mesh_dx == kw['mesh_dx'], lambda: f'mesh spacing {s._mesh_dx}, was {kw["mesh_dx"]}')
    a, b = r.getOrigin(), s.getOrigin()
    inp.check(inp.all([getattr(a, k) == getattr(b, k) for k in ('id', 'netid', 'network', 'lat', 'lon', 'depth', 'locstring', 'mag', 'mech', 'rake')]),
              lambda: f'origin {a.__dict__} loaded as {b.__dict__}')
    ts = [getattr(b.time, k) for k in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')]
    inp.check(ts == [getattr(ov['time'], k) for k in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')] and type(b.time) is T.HistoricTime,
              lambda: f'time {b.time!r}, was {ov["time"]!r}')
    co = s._geojson['features'][0]['geometry']['coordinates']
    inp.check(near(inp, co, [polys] if name != 'Point' else [ov['lon'], ov['lat'], ov['depth']]), lambda: f'coordinates {co}')


def jsonable(inp, d):
    if isinstance(d, dict):
        return {k: jsonable(inp, v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [jsonable(inp, v) for v in d]
    if d is None or inp.is_sym(d) or isinstance(d, (str, bool, int, float)):
        return d
    raise TypeError(f'Object of type {type(d).__name__} is not JSON serializable')


def twice(inp):
    """one dictionary, two events"""
    F = setup(inp)
    blind(inp)
    edge = inp.flag('edge')
    t, b = corners(2)
    d = rupt.geojson([rupt.closed([rupt.pt(inp, *p) for p in t + b[::-1]])])
    if edge:
        d['features'][0]['geometry']['coordinates'][0][0][1][2] = inp.const('1')
    before = snap(d)
    m = [inp.real(f'm{i}', 4, 9) for i in range(2)]
    rs = [inp.call('rupture', F.rupture_from_dict_and_origin, d, rupt.origin(inp, mag=m[i], id=f'e{i}')) for i in range(2)]
    inp.reach('twice')
    inp.check(kind(inp, rs[0]) == ('Edge' if edge else 'Quad'), 'class')
    inp.check(same(inp, d, before), 'dictionary changed')
    for i in range(2):
        md = rs[i]._geojson['metadata']
        inp.check(inp.all([md['mag'] == m[i], rs[i].getOrigin().mag == m[i]]) and md['id'] == f'e{i}' and md['reference'] == 'ref',
                  lambda: f'rupture of event {i} describes {md}')


def spacing(inp):
    """mesh spacing asked for"""
    F = setup(inp)
    blind(inp)
    t, b = corners(2)
    d = rupt.geojson([rupt.closed([rupt.pt(inp, *p) for p in t + b[::-1]])])
    d['features'][0]['geometry']['coordinates'][0][0][1][2] = inp.const('1')
    kw = {'mesh_dx': inp.real('dx', 0.01, 9)} if inp.flag('given') else {}
    if inp.flag('file'):
        r = inp.call('file', F.get_rupture, rupt.origin(inp), store(inp, d), **kw)
    else:
        r = inp.call('dict', F.rupture_from_dict_and_origin, d, rupt.origin(inp), **kw)
    inp.reach('spacing')
    inp.check(kind(inp, r) == 'Edge' and r._mesh_dx == kw.get('mesh_dx', 0.5), lambda: f'{r} {r._mesh_dx}')


def plane(inp):
    """distance of a point to the plane of three others"""
    setup(inp)
    U = inp.mod('impactutils.rupture.utils')
    V = inp.mod('impactutils.vectorutils.vector').Vector
    P = inp.p['pts']
    pts = [V(*[inp.const(c) for c in p]) for p in P]
    q = [inp.real(k, -1000, 1000) for k in 'xyz']
    r = inp.call('distance', U.get_distance_to_plane, pts, V(*q))
    inp.reach('plane')
    F = lambda p: [inp.const(c) for c in p]
    a, b, c = [F(p) for p in P]
    u, w = rupt.sub(b, a), rupt.sub(c, a)
    n = (u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0])
    off = rupt.dot(n, rupt.sub(q, a))
    inp.check(inp.all([r >= 0, inp.close(r * r * rupt.dot(n, n), off * off, 1e-6 if inp.symbolic else 1e-6 * (1 + off * off))]),
              lambda: f'{q} to {P}: {r}')


PL = [(('0', '0', '0'), ('1', '0', '0'), ('0', '1', '0')), (('1', '2', '3'), ('4', '2', '7'), ('1', '5', '3')),
      (('1', '1', '1'), ('2', '3', '4'), ('-1', '0', '5')), (('5', '0', '0'), ('0', '5', '0'), ('0', '0', '5'))]
CL = [dict(n=2, which='t1', vary=(2, '-0.2', '0.2')), dict(n=2, which='b0', vary=(2, '-0.2', '0.2')), dict(n=2, which='b1', vary=(1, '-0.1', '0.1')),
      dict(n=3, which='t2', vary=(2, '-0.1', '0.1')), dict(n=3, which='b2', vary=(1, '-0.05', '0.08')), dict(n=3, which='b0', vary=(2, '0', '0.1')),
      dict(n=2, which='b1', vary=(1, '-0.1', '0.1'), lead=1), dict(n=2, which='t0', vary=(2, '-1', '3')), dict(n=2, which='b1', vary=(0, '-0.1', '0.1'))]
for i, c in enumerate(CL):
    c['file'] = i % 2
WHAT = ['type', 'feature', 'geometry', 'features', 'reference', 'coordinates', 'even', 'open', 'upside']

HARNESSES = [
    H(classify, quick=CL, bounds='one or two quadrilaterals (also after a second polygon), one corner moved over a range in depth or sideways; dictionary or file', reach=['Quad']),
    H(points, bounds='every origin and point', reach=['point']),
    H(reject, quick=[dict(what=w) for w in WHAT], bounds='nine kinds of wrong dictionary', reach=['rejected']),
    H(roundtrip, quick=[dict(cls='Point'), dict(cls='Edge'), dict(cls='Edge', polys=2), dict(cls='Quad', dir='n'), dict(cls='Quad', dir='sw')],
      bounds='every origin and corner within the bounds; three times', reach=[]),
    H(twice, bounds='two events', reach=['twice']),
    H(spacing, bounds='every spacing', reach=['spacing']),
    H(plane, quick=[dict(pts=p) for p in PL], bounds='four planes, every point', reach=['plane']),
]
ASSUMPTIONS = ['flat-Earth chart; JSON of numbers, text, lists and dictionaries returns equal values',
               'no claim within a millionth of the tolerances']
