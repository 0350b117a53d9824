"""Dimensions and orientation of ruptures made of quadrilaterals."""
import math

import numpy as np

from sx import flat
from sx.harness import H
from props import rupt


def setup(inp):
    flat.install(inp)
    return inp.mod('impactutils.rupture.quad_rupture').QuadRupture


def apart(inp, a, b, tol):
    """angles a, b (degrees) agree modulo 360"""
    return inp.any([inp.close(a - b, 360.0 * k, tol) for k in (-2, -1, 0, 1, 2)])


def one(inp):
    """a single trapezoid: length, width, area, depth to top, dip, strike"""
    Q = setup(inp)
    d, dip = rupt.pair(inp, rupt.DIRS[inp.p['dir']]), rupt.pair(inp, rupt.DIPS[inp.p['dip']])
    L, W = inp.real('L', 1, 50), inp.real('W', 1, 30)
    z = inp.real('z', 0, 20)
    L2 = inp.real('L2', 1, 50) if inp.p.get('trap') else L
    sk = inp.real('skew', -5, 5) if inp.p.get('trap') else inp.const('0')
    q = rupt.quad(rupt.pt(inp, '1/10', '1/5', z), d, dip, L, W, L2, sk)
    left = inp.p.get('left')
    given = [q[1], q[0], q[3], q[2]] if left else q
    r = inp.call('construct', Q, rupt.geojson([rupt.closed(given)]), rupt.origin(inp))
    inp.reach('one')
    l = inp.call('length', r.getLength)
    inp.check(inp.close(l, L, 1e-5), lambda: f'length {l} expected {L}')
    w = inp.call('width', r.getWidth)
    inp.check(inp.close(w, W, 1e-5), lambda: f'width {w} expected {W}')
    a = inp.call('area', r.getArea)
    inp.check(inp.close(a, L * W, 1e-3), lambda: f'area {a} expected {L * W}')
    t = inp.call('top', r.getDepthToTop)
    inp.check(inp.close(t, z), lambda: f'top {t} expected {z}')
    dd = inp.call('dip', r.getDip)
    want = 90 - rupt.angle(rupt.DIPS[inp.p['dip']])
    inp.check(inp.close(dd, want, 1e-3), lambda: f'dip {dd} expected {want}')
    strike = rupt.angle(rupt.DIRS[inp.p['dir']]) % 360
    s = inp.call('strike', r.getStrike)
    ok = apart(inp, s, strike, 1e-3)
    if inp.p['dip'] == 'v':
        ok = inp.any([ok, apart(inp, s, strike + 180, 1e-3)])
    inp.check(ok, lambda: f'strike {s} expected {strike}')
    qs = r.getQuadrilaterals()
    inp.check(len(qs) == 1 and inp.all([rupt.point_close(inp, a, b) for a, b in zip(qs[0], q)])
              or inp.p['dip'] == 'v' and left, lambda: f'quadrilateral is {qs} expected {q}')


def chain(inp, k, z, dirs, lens, shift):
    """polygon through len(dirs)+1 top points, bottom shifted by `shift` (east, north, down km)"""
    top = [rupt.pt(inp, k, '1/10', z)]
    for d, l in zip(dirs, lens):
        top.append(rupt.offset(top[-1], d, l))
    bot = [[t[0] + shift[0] / rupt.KM, t[1] + shift[1] / rupt.KM, t[2] + shift[2]] for t in top]
    return top, bot


def width_sq(d, s):
    """squared distance of the shift from the line along d"""
    return rupt.dot(s, s) - (d[0] * s[0] + d[1] * s[1]) * (d[0] * s[0] + d[1] * s[1])


def ring(top, bot):
    return top + bot[::-1] + top[:1]


def outline_ok(inp, got, rings):
    """got: coordinate with nan after each ring; every ring equal to the polygon (either start, same cycle)"""
    parts, cur = [], []
    for v in list(got):
        if not inp.is_sym(v) and v != v:
            parts.append(cur)
            cur = []
        else:
            cur.append(v)
    if cur or len(parts) != len(rings):
        return False
    ok = []
    for p, r in zip(parts, rings):
        n = len(r) - 1
        if len(p) != n + 1:
            return False
        alts = []
        for q in (r[:-1], r[:-1][::-1]):
            for i in range(n):
                rot = q[i:] + q[:i]
                alts.append(inp.all([inp.close(x, y) for x, y in zip(p, rot + rot[:1])]))
        ok.append(inp.any(alts))
    return inp.all(ok)


def build(inp, Q):
    polys, rings, quads, groups = [], [], [], []
    for g, (dirs, shift) in enumerate(inp.p['polys']):
        ds = [rupt.pair(inp, rupt.DIRS[d]) for d in dirs]
        sh = [inp.const(str(x)) for x in shift]
        lens = [inp.real(f'L{g}{i}', 1, 40) for i in range(len(ds))]
        z = inp.real(f'z{g}', 0, 10)
        top, bot = chain(inp, f'{g}', z, ds, lens, sh)
        if inp.p.get('left'):
            polys.append(ring(top[::-1], bot[::-1]))
        else:
            polys.append(ring(top, bot))
        rings.append(ring(top, bot))
        for i, d in enumerate(ds):
            quads.append((top[i], top[i + 1], bot[i + 1], bot[i], lens[i], width_sq(d, sh), z))
            groups.append(g)
    return inp.call('construct', Q, rupt.geojson(polys), rupt.origin(inp)), polys, rings, quads, groups


def outlines(inp, r, rings):
    for what, k in (('lons', 0), ('lats', 1), ('depths', 2)):
        v = inp.call(what, getattr, r, what)
        inp.check(outline_ok(inp, v, [[pt[k] for pt in x] for x in rings]), lambda: f'{what}: {v} for {rings}')


def left_outline(inp):
    """the outline of bent polygons whose vertices run against strike"""
    r, polys, rings, quads, groups = build(inp, setup(inp))
    inp.reach('left')
    outlines(inp, r, rings)


def several(inp):
    """polygons of one and two quadrilaterals: totals, order, outline"""
    r, polys, rings, quads, groups = build(inp, setup(inp))
    inp.reach('several')
    n = len(quads)
    inp.check(r.getNumQuads() == n and len(r.getQuadrilaterals()) == n and r.getNumGroups() == len(rings)
              and list(r._getGroupIndex()) == groups, lambda: f'{r.getNumQuads()} {r.getNumGroups()} {r._getGroupIndex()}')
    got = r.getQuadrilaterals()
    if inp.p.get('left'):
        # the order within a polygon is another matter: see left_outline
        order = []
        for g in sorted(set(groups)):
            mine = [i for i in range(n) if groups[i] == g]
            order += mine[::-1] if inp.close(got[mine[0]][0].longitude, quads[mine[-1]][0][0], 1e-6) and \
                inp.close(got[mine[0]][0].latitude, quads[mine[-1]][0][1], 1e-6) else mine
        quads = [quads[i] for i in order]
    for i, q in enumerate(quads):
        inp.check(inp.all([rupt.point_close(inp, P, t) for P, t in zip(got[i], q[:4])]),
                  lambda: f'quadrilateral {i} is {[(P.x, P.y, P.z) for P in got[i]]}, expected {q[:4]}')
    ls, ws = list(r.getIndividualTopLengths()), list(r.getIndividualWidths())
    inp.check(len(ls) == n and len(ws) == n and inp.all(
        [inp.close(a, q[4]) for a, q in zip(ls, quads)] + [inp.close(a * a, q[5], 1e-4) for a, q in zip(ws, quads)]
        + [a > 0 for a in ws]), lambda: f'lengths {ls} widths {ws} expected {[(q[4], q[5]) for q in quads]}')
    inp.check(inp.close(r.getLength(), sum(q[4] for q in quads), 1e-4), lambda: f'length {r.getLength()}')
    inp.check(inp.close(r.getWidth() * n, sum(ws), 1e-4), lambda: f'width {r.getWidth()} of {ws}')
    inp.check(inp.close(r.getArea(), sum(q[4] * w for q, w in zip(quads, ws)), 1e-2), lambda: f'area {r.getArea()}')
    top = r.getDepthToTop()
    inp.check(inp.all([top <= q[6] + 1e-6 for q in quads]) and inp.any([inp.close(top, q[6]) for q in quads]),
              lambda: f'depth to top {top}')
    if not inp.p.get('left') or max(len(d) for d, _ in inp.p['polys']) == 1:
        outlines(inp, r, rings)
    given = r.getRuptureAsArrays()
    for k in range(3):
        want = []
        for x in polys:
            want += [pt[k] for pt in x[:-1]] + [None]
        inp.check(len(given[k]) == len(want) and inp.all(
            [(not inp.is_sym(a) and a != a) if b is None else a == b for a, b in zip(given[k], want)]),
            lambda: f'arrays {given[k]} expected {want}')


J1 = [dict(dir=d, dip=p) for d in ('n', 'ne', 'sw') for p in ('v', 'd', 'f')]
J1 += [dict(dir='se', dip='d', left=1), dict(dir='n', dip='s', left=1)]
J1 += [dict(dir='ne', dip='d', trap=1), dict(dir='w', dip='s', trap=1)]
J2 = [dict(polys=[(('n', 'n'), (8, 0, 6))]), dict(polys=[(('n', 'ne'), (4, -2, 5))]),
      dict(polys=[(('n',), (8, 0, 6)), (('ne', 'e'), (0, -3, 7))]), dict(polys=[(('e', 'ne'), (0, 0, 9)), (('sw',), (-3, 4, 5))]),
      dict(polys=[(('n', 'ne'), (4, -2, 5))], left=1), dict(polys=[(('n',), (8, 0, 6)), (('ne', 'e'), (0, -3, 7))], left=1)]
J2 += [dict(polys=[(('n',), (8, 0, 6)), (('ne',), (4, -2, 5))], left=1)]
J3 = [dict(polys=[(('n', 'ne'), (4, -2, 5))], left=1)]
HARNESSES = [
    H(one, quick=J1, bounds='a trapezoid of length 1..50 km, width 1..30 km, top depth 0..20 km, all symbolic, in six strike '
      'directions and four dips, either vertex order', reach=['one'], obj_arrays=True),
    H(several, quick=J2, bounds='one or two polygons of up to two quadrilaterals, straight and bent, lengths 1..40 km and '
      'depths symbolic, either vertex order', reach=['several'], obj_arrays=True),
    H(left_outline, quick=J3, bounds='one polygon of two quadrilaterals in left-dipping vertex order', reach=['left'],
      obj_arrays=True),
]
ASSUMPTIONS = ['the geodetic conversions (latitude/longitude to Cartesian, map projection, azimuth, great-circle distance) '
               'are replaced by a flat chart of the Earth, in symbolic runs and replays alike']
