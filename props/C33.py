"""Ruptures given by their top and bottom edges."""
import numpy as np

from sx import flat
from sx.harness import H
from props import rupt
from props.C31 import apart, ring, outline_ok


def setup(inp):
    flat.install(inp)
    return inp.mod('impactutils.rupture.edge_rupture').EdgeRupture


def blind(inp, E):
    """leave out the representative strike and dip, which harness `plane` looks at"""
    if hasattr(E, '_computeStrikeDip'):
        inp.patch(E, '_computeStrikeDip', lambda self: None)


def columns(inp, pts, k):
    return np.array([p[k] for p in pts], dtype=object if inp.symbolic else float)


def build(inp, E, polys, **kw):
    if inp.p.get('arrays'):
        tops = [p for t, b in polys for p in t]
        bots = [p for t, b in polys for p in b]
        args = [columns(inp, tops, k) for k in range(3)] + [columns(inp, bots, k) for k in range(3)]
        if len(polys) > 1:
            kw['group_index'] = [g for g, (t, b) in enumerate(polys) for p in t]
        return inp.call('fromArrays', E.fromArrays, *args, rupt.origin(inp), reference='me', **kw)
    return inp.call('construct', E, rupt.geojson([ring(t, b) for t, b in polys], 'me'), rupt.origin(inp), **kw)


def free(inp):
    """outline, quadrilaterals, depth to top of polygons with symbolic corners"""
    E = setup(inp)
    blind(inp, E)
    polys = []
    for g, n in enumerate(inp.p['n']):
        polys.append([[[inp.real(f'{s}{g}{i}{k}', -1 if k != 'd' else 0, 1 if k != 'd' else 30) for k in 'xyd']
                       for i in range(n)] for s in 'tb'])
    r = build(inp, E, polys)
    inp.reach('free')
    for what, k in (('lons', 0), ('lats', 1), ('depths', 2)):
        v = inp.call(what, getattr, r, what)
        inp.check(outline_ok(inp, v, [[p[k] for p in ring(t, b)] for t, b in polys]), lambda: f'{what} {v} of {polys}')
    qs = inp.call('quads', r.getQuadrilaterals)
    want = [(t[i], t[i + 1], b[i + 1], b[i]) for t, b in polys for i in range(len(t) - 1)]
    inp.check(len(qs) == len(want) and inp.all([rupt.point_close(inp, P, w, 1e-9) for q, ww in zip(qs, want)
                                                for P, w in zip(q, ww)]), lambda: f'quadrilaterals {qs} expected {want}')
    gi = [g for g, (t, b) in enumerate(polys) for _ in t]
    inp.check([int(g) for g in r._getGroupIndex()] == gi, lambda: f'groups {r._getGroupIndex()} expected {gi}')
    top = inp.call('top', r.getDepthToTop)
    ds = [p[2] for t, b in polys for p in t]
    inp.check(inp.all([top <= d for d in ds]) and inp.any([top == d for d in ds]), lambda: f'top {top} of {ds}')
    # the GeoJSON it is saved as describes the same polygons
    co = r._geojson['features'][0]['geometry']['coordinates'][0]
    inp.check(len(co) == len(polys) and inp.all(
        [len(c) == 2 * len(t) + 1 and inp.all([a == b for p, w in zip(c, ring(t, b_)) for a, b in zip(p, w)])
         for c, (t, b_) in zip(co, polys)]), lambda: f'GeoJSON {co} of {polys}')
    inp.check(r.getReference() == 'me', lambda: f'reference {r.getReference()}')


def measures(inp):
    """length along the top at the surface, area of the triangles, width"""
    E = setup(inp)
    blind(inp, E)
    k = inp.real('k', 1, 4)
    polys = []
    for g, spec in enumerate(inp.p['polys']):
        x, y, z = inp.real(f'x{g}', -1, 1), inp.real(f'y{g}', -1, 1), inp.real(f'z{g}', 0, 9)
        polys.append([[[x + k * inp.const(str(p[s][0])) / rupt.KM, y + k * inp.const(str(p[s][1])) / rupt.KM,
                        z + k * inp.const(str(p[s][2]))] for p in spec] for s in (0, 1)])
    r = build(inp, E, polys)
    inp.reach('measures')
    ln, ar = 0.0, 0.0
    for spec in inp.p['polys']:
        for i in range(len(spec) - 1):
            a, b, c, d = [np.array(v, float) * [1, 1, -1] for v in (spec[i][0], spec[i + 1][0], spec[i + 1][1], spec[i][1])]
            ln += np.hypot(*(b - a)[:2])
            ar += np.linalg.norm(np.cross(b - a, c - a)) / 2 + np.linalg.norm(np.cross(c - a, d - a)) / 2
    l = inp.call('length', r.getLength)
    inp.check(inp.close(l, k * float(ln), 1e-4), lambda: f'length {l} expected {k} * {ln}')
    a = inp.call('area', r.getArea)
    inp.check(inp.close(a, k * k * float(ar), 1e-3), lambda: f'area {a} expected {k}**2 * {ar}')
    w = inp.call('width', r.getWidth)
    inp.check(inp.close(w * float(ln), k * float(ar), 1e-3), lambda: f'width {w} expected {k} * {ar / ln}')


def plane(inp):
    """strike and dip of planar ruptures of several pieces"""
    E = setup(inp)
    d, dip = rupt.pair(inp, rupt.DIRS[inp.p['dir']]), rupt.pair(inp, rupt.DIPS[inp.p['dip']])
    W = inp.real('W', 1, 20)
    polys = []
    for g, n in enumerate(inp.p['n']):
        z = inp.real(f'z{g}', 0, 20)
        top = [rupt.pt(inp, f'{g}/2', '1/10', z)]
        for i in range(n - 1):
            top.append(rupt.offset(top[-1], d, inp.real(f'L{g}{i}', 1, 20)))
        bot = [rupt.down(t, d, dip, W) for t in top]
        if inp.p.get('left'):
            top, bot = top[::-1], bot[::-1]
        polys.append((top, bot))
    r = build(inp, E, polys)
    inp.reach('plane')
    dd = inp.call('dip', r.getDip)
    want = 90 - rupt.angle(rupt.DIPS[inp.p['dip']])
    inp.check(inp.close(dd, want, 1e-3), lambda: f'dip {dd} expected {want}')
    s = inp.call('strike', r.getStrike)
    strike = rupt.angle(rupt.DIRS[inp.p['dir']])
    ok = apart(inp, s, strike, 1e-3)
    if inp.p['dip'] == 'v':
        ok = inp.any([ok, apart(inp, s, strike + 180, 1e-3)])
    inp.check(ok, lambda: f'strike {s} expected {strike}')


def nodes(inp, polys, dx):
    """mesh of the surface with spacing dx: the pieces are dx by dx in size or a multiple"""
    out = []
    for spec, (top, bot) in polys:
        for i in range(len(top) - 1):
            a, b, c, d = [rupt.enu(p) for p in (top[i], top[i + 1], bot[i + 1], bot[i])]
            sa, sb, sc, sd = [np.array(v, float) for v in (spec[i][0], spec[i + 1][0], spec[i + 1][1], spec[i][1])]
            nx = max(int(round(np.linalg.norm(sb - sa) / dx)) + 1, 2)
            fx = [float(j) / (nx - 1) for j in range(nx)]
            ys = [np.linalg.norm((sa + (sb - sa) * f) - (sd + (sc - sd) * f)) for f in fx]
            ny = max(int(round(np.mean(ys) / dx)) + 1, 2)
            for f in fx:
                u = [p + (q - p) * f for p, q in zip(a, b)]
                v = [p + (q - p) * f for p, q in zip(d, c)]
                for h in range(ny):
                    e = float(h) / (ny - 1)
                    out.append([p + (q - p) * e for p, q in zip(u, v)])
    return out


def distance(inp):
    """distances to the discretised surface: attained at a node, no node nearer; no spot of the surface much nearer"""
    E = setup(inp)
    dx = inp.p['dx']
    polys = []
    for g, spec in enumerate(inp.p['polys']):
        polys.append([[[inp.const(str(p[s][0])) / rupt.KM, inp.const(str(p[s][1])) / rupt.KM, inp.const(str(p[s][2]))]
                       for p in spec] for s in (0, 1)])
    r = build(inp, E, polys, mesh_dx=dx)
    site = [inp.real('sx', -0.5, 0.5), inp.real('sy', -0.5, 0.5), inp.real('sd', 0, 10)]
    site[2] = site[2] if not inp.p['jb'] else inp.const('0')
    shape = inp.p.get('shape', (1,))
    n = int(np.prod(shape))
    # further sites stand at fixed places
    sites = [site] + [[inp.const(f'{i}/7'), inp.const(f'-{i}/5'), inp.const('0')] for i in range(1, n)]
    arrs = [columns(inp, sites, k).reshape(shape) for k in range(3)]
    f = r.computeRjb if inp.p['jb'] else r.computeRrup
    d, err = inp.call('distance', f, *arrs)
    inp.reach('distance')
    inp.check(d.shape == tuple(shape), lambda: f'shape {d.shape} for {shape}')
    if inp.p['jb']:
        polys = [[[[p[0], p[1], 0 * p[2]] for p in e] for e in pg] for pg in polys]
        specs = [[[(t[0], t[1], 0), (b[0], b[1], 0)] for t, b in spec] for spec in inp.p['polys']]
    else:
        specs = inp.p['polys']
    pts = nodes(inp, list(zip(specs, polys)), dx)
    for s, v in zip(sites, list(d.reshape(-1))):
        q = rupt.enu(s)
        sq = [rupt.dot(rupt.sub(q, p), rupt.sub(q, p)) for p in pts]
        least = sq[0]
        for x in sq[1:]:
            least = x if x < least else least
        inp.check(v >= -1e-9, lambda: f'distance {v}')
        inp.check(inp.close(v * v, least, 1e-4), lambda: f'distance {v} at {s}, squared distances of the surface {sq}')


# corners: ((top east, north, depth), (bottom ...)) per pair, kilometres
FLATQ = [((0, 0, 1), (6, 0, 9)), ((0, 8, 1), (6, 8, 9))]
BENT = [((0, 0, 0), (4, -2, 5)), ((0, 10, 0), (4, 8, 5)), ((6, 18, 0), (10, 16, 5))]
WARP = [((0, 0, 0), (3, 1, 6)), ((1, 9, 2), (5, 8, 9))]
M = [dict(polys=[FLATQ]), dict(polys=[BENT]), dict(polys=[WARP, FLATQ]), dict(polys=[FLATQ, BENT], arrays=1)]
P = [dict(dir=d, dip=p, n=[2]) for d, p in (('n', 'd'), ('ne', 's'), ('sw', 'f'), ('e', 'd'), ('w', 's'), ('ne', 'v'))]
P += [dict(dir='se', dip='d', n=[3]), dict(dir='ne', dip='f', n=[2, 2]), dict(dir='n', dip='d', n=[2], arrays=1)]
D = [dict(polys=[FLATQ], dx=5, jb=0), dict(polys=[FLATQ], dx=5, jb=1), dict(polys=[BENT], dx=12, jb=0),
     dict(polys=[BENT], dx=12, jb=1), dict(polys=[WARP, FLATQ], dx=12, jb=0), dict(polys=[WARP, FLATQ], dx=12, jb=1),
     dict(polys=[FLATQ], dx=12, jb=0, shape=(2, 2)), dict(polys=[FLATQ], dx=12, jb=1, shape=(3,))]
HARNESSES = [
    H(free, quick=[dict(n=n, arrays=a) for n in ([2], [3], [2, 3], [2, 2, 2]) for a in (0, 1)], reach=['free'], obj_arrays=True,
      bounds='one to three polygons of two or three pairs of corners, every coordinate symbolic, from GeoJSON and arrays'),
    H(measures, quick=M, reach=['measures'], obj_arrays=True,
      bounds='plane, bent and warped surfaces and pairs of them, position and scale symbolic'),
    H(plane, quick=P, reach=['plane'], obj_arrays=True,
      bounds='planar surfaces of one to two pieces in six directions, lengths 1..20, width 1..20 and depths symbolic'),
    H(distance, quick=D, reach=['distance'], obj_arrays=True,
      bounds='meshes of 4..9 nodes of plane, bent and warped surfaces, site anywhere within 50 km and 10 km depth'),
]
ASSUMPTIONS = ['the geodetic conversions are replaced by a flat chart of the Earth, in symbolic runs and replays alike',
               'harnesses free and measures leave out the representative strike and dip, which harness plane covers']
