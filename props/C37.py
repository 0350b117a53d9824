"""Ruptures made from traces, orientations and vertices."""
import numpy as np

from sx import flat
from sx.harness import H
from props import rupt


def setup(inp):
    flat.install(inp)
    return inp.mod('impactutils.rupture.quad_rupture').QuadRupture


def record(inp, Q):
    """ruptures that only keep the polygons they are given (quadrilaterals are another check)"""
    def init(self, d, origin):
        self._geojson, self._origin, self._reference = d, origin, d['metadata']['reference']
    inp.patch(Q, '__init__', init)


def polygons(r):
    return r._geojson['features'][0]['geometry']['coordinates'][0]


def same(inp, got, want, tol):
    return len(got) == len(want) and inp.all([len(g) == len(w) and inp.all(
        [inp.close(a, b, t) for p, q in zip(g, w) for a, b, t in zip(p, q, (tol / 100, tol / 100, tol))]) for g, w in zip(got, want)])


def vec(inp, vals, form):
    if form == 'list':
        return list(vals)
    return np.array(vals, dtype=object if inp.symbolic else float)


def expected(quads, groups):
    """polygon per group: along the tops, back along the bottoms"""
    out = []
    for g in sorted(set(groups)):
        qs = [q for q, k in zip(quads, groups) if k == g]
        out.append(rupt.closed([qs[0][0]] + [q[1] for q in qs] + [q[2] for q in qs][::-1] + [qs[0][3]]))
    return out


def described(inp, r, o, polys, quads, ref, tol):
    g = r._geojson
    inp.check(g['type'] == 'FeatureCollection' and len(g['features']) == 1 and g['features'][0]['type'] == 'Feature' and
              g['features'][0]['geometry']['type'] == 'MultiPolygon', 'frame')
    inp.check(same(inp, polygons(r), polys, tol), lambda: f'polygons {polygons(r)} expected {polys}')
    md = g['metadata']
    inp.check(md['reference'] == ref and md['id'] == 'x1' and md['time'] == '2000-01-02T03:04:05.000006Z', lambda: f'metadata {md}')
    inp.check(inp.all([p[0][k] == p[-1][k] for p in polygons(r) for k in range(3)]), 'closed')


def place(inp, i, free):
    return [inp.real(f'x{i}', -1, 1), inp.real(f'y{i}', -1, 1)] if free else rupt.pt(inp, *(('-1/4', '1/5'), ('3/10', '-1/10'))[i])


def trace(inp):
    """top edge, width and dip"""
    Q = setup(inp)
    record(inp, Q)
    n = inp.p['n']
    groups = inp.p.get('groups')
    strike = inp.p.get('strike')
    form = inp.p.get('form', 'list')
    P0, P1, Z, W, D, S, quads = [], [], [], [], [], [], []
    last = None
    for i in range(n):
        d = rupt.pair(inp, rupt.DIRS[inp.p['dirs'][i]])
        L = inp.real(f'L{i}', 1, 50)
        if groups and i and groups[i] == groups[i - 1]:
            p0, z = last[1], Z[-1]
            w, (dip, s, c) = W[-1], D[-1]
        else:
            z, w = inp.real(f'z{i}', 0, 20), inp.real(f'w{i}', 1, 40)
            dip, s, c = inp.angle(f'dip{i}', 1, 90, 180.0)
            if inp.symbolic:
                inp.assume(inp.all([s > 0, c >= 0]))
            p0 = place(inp, i, n == 1 or not strike) + [z]
        p1 = rupt.offset(p0, d, L)
        if strike:
            if i == 0 or strike == 'each':
                st, ss, sc = inp.angle(f'st{i}', -360, 360, 180.0)
                S.append((st, ss, sc))
            st, ss, sc = S[-1]
            q = (ss, sc)
        else:
            q = d
        last = [p0, p1, rupt.down(p1, q, (c, s), w), rupt.down(p0, q, (c, s), w)]
        quads.append(last)
        P0.append(p0), P1.append(p1), Z.append(z), W.append(w), D.append((dip, s, c))
    o = rupt.origin(inp)
    kw = {}
    if strike:
        kw['strike'] = vec(inp, [s[0] for s in S], form)
    if groups:
        kw['group_index'] = list(groups) if form == 'list' else np.array(groups)
    if inp.p.get('ref'):
        kw['reference'] = 'mine'
    args = [vec(inp, v, form) for v in ([p[0] for p in P0], [p[1] for p in P0], [p[0] for p in P1], [p[1] for p in P1], Z, W, [q[0] for q in D])]
    before = [list(a) for a in args]
    r = inp.call('fromTrace', Q.fromTrace, *args, o, **kw)
    inp.reach('trace')
    inp.check(all(x is y or x == y for a, b in zip(args, before) for x, y in zip(a, b)), 'arguments changed')
    inp.check(r._origin is o, 'origin')
    described(inp, r, o, expected(quads, groups or list(range(n))), quads, 'mine' if inp.p.get('ref') else '', 1e-6)


def orientation(inp):
    """a point on the plane, sizes and orientation"""
    Q = setup(inp)
    record(inp, Q)
    n = inp.p['n']
    cols = {k: [] for k in ('px', 'py', 'pz', 'dx', 'dy', 'L', 'W', 'st', 'dip')}
    quads = []
    for i in range(n):
        L, W = inp.real(f'L{i}', 1, 50), inp.real(f'W{i}', 1, 30)
        k = inp.real(f'k{i}', 0, 40)
        if n > 1:  # orientations from the table
            d, p = rupt.DIRS[inp.p['dirs'][i]], rupt.DIPS[inp.p['dips'][i]]
            (ss, sc), (c, s) = rupt.pair(inp, d), rupt.pair(inp, p)
            st, dip = known(inp, f'st{i}', rupt.angle(d), *d), known(inp, f'dip{i}', 90 - rupt.angle(p), p[1], p[0])
        else:
            st, ss, sc = inp.angle(f'st{i}', -180, 360, 180.0)
            dip, s, c = inp.angle(f'dip{i}', 1, 90, 180.0)
            if inp.symbolic:
                inp.assume(inp.all([s > 0, c >= 0]))
            else:
                c = max(c, 0.0)
        # the point in the plane, at a chosen bearing in the plan view from the corner
        a, b = inp.p['at'][i]
        dx, dy = (a * k * c if b else k * a), b * k
        inp.assume(inp.all([dx < L, dy < W]))
        p = place(inp, i, n == 1) + [inp.real(f'z{i}', 0, 40)]
        inp.assume(p[2] - dy * s >= 0)
        d = (ss, sc)
        p0 = rupt.offset(rupt.offset(p, d, -dx), (d[1], -d[0]), -dy * c)
        p0[2] = p[2] - dy * s
        p1 = rupt.offset(p0, d, L)
        quads.append([p0, p1, rupt.down(p1, d, (c, s), W), rupt.down(p0, d, (c, s), W)])
        for k, v in zip(cols, (*p, dx, dy, L, W, st, dip)):
            cols[k].append(v)
    o = rupt.origin(inp)
    r = inp.call('fromOrientation', Q.fromOrientation, *[vec(inp, v, inp.p['form']) for v in cols.values()], o)
    inp.reach('orientation')
    inp.check(r._origin is o, 'origin')
    described(inp, r, o, expected(quads, list(range(n))), quads, '', 1e-6)


def vertices(inp):
    """all four corners"""
    Q = setup(inp)
    record(inp, Q)
    n = inp.p['n']
    groups = inp.p.get('groups')
    quads = []
    for i in range(n):
        q = [[inp.real(f'{k}{i}{j}', 0 if k == 'z' else -1, 30 if k == 'z' else 1) for k in 'xyz'] for j in range(4)]
        if groups and i and groups[i] == groups[i - 1]:
            q[0], q[3] = quads[-1][1], quads[-1][2]
        quads.append(q)
    form = inp.p['form']
    cols = [vec(inp, [q[j][k] for q in quads], form) for j in range(4) for k in range(3)]
    before = [list(a) for a in cols]
    kw = {}
    if groups:
        kw['group_index'] = list(groups) if form == 'list' else np.array(groups)
    if inp.p.get('ref'):
        kw['reference'] = 'mine'
    o = rupt.origin(inp)
    r = inp.call('fromVertices', Q.fromVertices, *cols, o, **kw)
    inp.reach('vertices')
    inp.check(all(x is y or x == y for a, b in zip(cols, before) for x, y in zip(a, b)), 'arguments changed')
    inp.check(r._origin is o, 'origin')
    described(inp, r, o, expected(quads, groups or list(range(n))), quads, 'mine' if inp.p.get('ref') else None, 1e-9)


def whole(inp):
    """the quadrilaterals of the rupture are those asked for"""
    Q = setup(inp)
    d, dip = rupt.DIRS[inp.p['dir']], rupt.DIPS[inp.p['dip']]
    L, W = inp.real('L', 1, 50), inp.real('W', 1, 40)
    p0 = rupt.pt(inp, '0.1', '-0.3', inp.real('z', 0, 20))
    q = rupt.quad(p0, rupt.pair(inp, d), rupt.pair(inp, dip), L, W)
    o = rupt.origin(inp)
    how = inp.p['how']
    if how == 'vertices':
        r = inp.call('vertices', Q.fromVertices, *[[q[j][k]] for j in range(4) for k in range(3)], o)
    else:
        # degrees of the rational dip, declared so that its sine and cosine are known
        deg = 90 - rupt.angle(dip)
        ang = known(inp, 'dip', deg, dip[1], dip[0])
        if how == 'trace':
            r = inp.call('trace', Q.fromTrace, [q[0][0]], [q[0][1]], [q[1][0]], [q[1][1]], [q[0][2]], [W], [ang], o)
        else:
            st = known(inp, 'st', rupt.angle(d), d[0], d[1])
            r = inp.call('orientation', Q.fromOrientation, [q[0][0]], [q[0][1]], [q[0][2]], [0.0], [0.0], [L], [W], [st], [ang], o)
    inp.reach('whole')
    qs = inp.call('quads', r.getQuadrilaterals)
    inp.check(len(qs) == 1 and inp.all([rupt.point_close(inp, P, w, 1e-6) for P, w in zip(qs[0], q)]), lambda: f'{qs[0]} expected {q}')


def known(inp, name, deg, s, c):
    v, ss, sc = inp.angle(name, deg - 1e-6, deg + 1e-6, 180.0)
    if inp.symbolic:
        inp.assume(inp.all([ss == inp.const(s), sc == inp.const(c)]))
        return v
    return deg


def lengths(inp):
    """arrays of different lengths"""
    Q = setup(inp)
    X = inp.mod('impactutils.exceptions')
    how = inp.p['how']
    nargs = {'trace': 7, 'orientation': 9, 'vertices': 12}[how]
    bad = inp.choice('bad', range(nargs))
    n = inp.choice('n', [0, 1, 3])
    v = [0.25, 0.5, 0.75]
    args = [[v[0], v[1]] for _ in range(nargs)]
    args[bad] = v[:n]
    f = {'trace': Q.fromTrace, 'orientation': Q.fromOrientation, 'vertices': Q.fromVertices}[how]
    r, e = inp.raises(f, *args, rupt.origin(inp))
    inp.reach('lengths')
    inp.check(isinstance(e, X.ConsistentLengthError), lambda: f'{how}, argument {bad} of length {n}: {r} {e!r}')
    if how == 'vertices':
        r, e = inp.raises(f, *[v for _ in range(nargs)], rupt.origin(inp), group_index=[0] * inp.choice('g', [1, 2, 4]))
        inp.check(isinstance(e, X.ConsistentLengthError), lambda: f'group index: {r} {e!r}')
    if how == 'trace':
        r, e = inp.raises(f, *[v for _ in range(nargs)], rupt.origin(inp), strike=[10.0] * inp.choice('g', [0, 2, 4]))
        inp.check(isinstance(e, TypeError), lambda: f'strike: {r} {e!r}')


TR = [dict(n=1, dirs=['ne']), dict(n=1, dirs=['w'], form='array', ref=1), dict(n=2, dirs=['n', 'se']), dict(n=2, dirs=['ne', 'ne'], groups=[0, 0]),
      dict(n=2, dirs=['e', 'sw'], groups=[1, 0], form='array'), dict(n=1, dirs=['e'], strike='one'), dict(n=2, dirs=['n', 'w'], strike='one'),
      dict(n=2, dirs=['n', 'w'], strike='each', form='array'), dict(n=3, dirs=['se', 'se', 'n'], groups=[4, 4, 7])]
VE = [dict(n=1, form='list'), dict(n=2, form='array', ref=1), dict(n=2, form='list', groups=[0, 0]), dict(n=3, form='array', groups=[2, 2, 1]),
      dict(n=3, form='list', groups=[5, 5, 5], ref=1)]
WH = [dict(how=h, dir=d, dip=p) for h, d, p in (('vertices', 'ne', 'd'), ('trace', 'ne', 'd'), ('trace', 'w', 's'), ('trace', 'se', 'f'),
                                                ('orientation', 'ne', 'd'), ('orientation', 'n', 's'))]

HARNESSES = [
    H(trace, quick=TR, bounds='1..3 quadrilaterals, every position, length, width, depth, dip and strike; directions of traces from a table', reach=['trace'], obj_arrays=True),
    H(orientation, quick=[dict(n=1, form='list', at=[a]) for a in ((0, 0), (1, 0), (0, 1), (4, 3), (5, 12))] + [dict(n=2, form='array', at=[(1, 0), (0, 1)], dirs=['ne', 'w'], dips=['d', 's']), dict(n=2, form='array', at=[(5, 12), (0, 0)], dirs=['sw', 'e'], dips=['s', 'f'])],
      bounds='1..2 planes, every size, strike and dip; the point at every distance along six bearings', reach=['orientation'], obj_arrays=True),
    H(vertices, quick=VE, bounds='1..3 quadrilaterals, every corner', reach=['vertices'], obj_arrays=True),
    H(whole, quick=WH, bounds='every length, width and depth, six orientations', reach=['whole'], obj_arrays=True),
    H(lengths, quick=[dict(how=h) for h in ('trace', 'orientation', 'vertices')], bounds='one array of another length', reach=['lengths']),
]
ASSUMPTIONS = ['flat-Earth chart: exact relations between directions, distances and coordinates']
