"""Generalised coordinates (GC2) of sites about fault traces."""
import numpy as np

from sx import flat
from sx.harness import H
from props import rupt


def setup(inp):
    flat.install(inp)
    return inp.mod('impactutils.rupture.quad_rupture').QuadRupture


def arr(inp, vals, shape=None):
    a = np.array(vals, dtype=object if inp.symbolic else float)
    return a if shape is None else a.reshape(shape)


def part(inp, p0, d, lens, dip=('0', '1'), w='10'):
    """polygon along d from p0, pieces of the given lengths"""
    top = [p0]
    for l in lens:
        top.append(rupt.offset(top[-1], d, l))
    bot = [rupt.down(t, d, rupt.pair(inp, dip), inp.const(w)) for t in top]
    return top, bot


def ring(top, bot):
    return top + bot[::-1] + top[:1]


def gc2(inp, r, sites, shape=None):
    lon, lat = arr(inp, [s[0] for s in sites], shape), arr(inp, [s[1] for s in sites], shape)
    return inp.call('gc2', r.computeGC2, lon, lat, arr(inp, [inp.const('0') for s in sites], shape))


def place(inp, p0, d, t, u):
    """site t km to the right and u km along d from p0"""
    s = rupt.offset(p0, d, u)
    return rupt.offset(s, (d[1], -d[0]), t)


def expected(inp, t, u, length):
    zero = 0 * t
    r0 = -u if u < 0 else u - length if u > length else zero
    return dict(T=t, U=u, rx=t, ry=u - length / 2, ry0=r0)


def agree(inp, g, i, want, label='', tol=1e-5):
    for k, v in want.items():
        x = list(g[k].reshape(-1))[i]
        inp.check(inp.close(x, v, tol), lambda: f'{label}{k} of site {i} is {x}, expected {v}')


def straight(inp):
    """one straight trace, whole or in pieces: T is the distance to the right of it, U along it"""
    Q = setup(inp)
    d = rupt.pair(inp, rupt.DIRS[inp.p['dir']])
    n = inp.p['n']
    lens = [inp.real(f'L{i}', 1, 30) for i in range(n)]
    z = inp.real('z', 0, 10)
    top, bot = part(inp, rupt.pt(inp, '1/10', '1/5', z), d, lens, rupt.DIPS[inp.p.get('dip', 'd')])
    if inp.p.get('edge'):
        E = inp.mod('impactutils.rupture.edge_rupture').EdgeRupture
        r = inp.call('edge', E, rupt.geojson([ring(top, bot)]), rupt.origin(inp))
    else:
        r = inp.call('quad', Q, rupt.geojson([ring(top, bot)]), rupt.origin(inp))
    shape = inp.p.get('shape', (1,))
    m = int(np.prod(shape))
    tu = [(inp.real(f't{i}', -60, 60) if i == 0 else inp.const(f'{5 + 2 * i}'), inp.real(f'u{i}', -60, 60)) for i in range(m)]
    if inp.p.get('on'):
        tu[0] = (inp.const('0'), tu[0][1])
    elif not inp.symbolic:
        inp.assume(all(abs(t) > 1e-3 for t, u in tu))       # rounding: the two ends of the trace, from either side
    else:
        inp.assume(inp.all([inp.no(t == 0) for t, u in tu]))
    sites = [place(inp, top[0], d, t, u) for t, u in tu]
    g = gc2(inp, r, sites, shape)
    inp.reach('straight')
    for k in ('T', 'U', 'rx', 'ry', 'ry0'):
        inp.check(k in g and g[k].shape == tuple(shape), lambda: f'{k}: {g.get(k)} for shape {shape}')
    for i, (t, u) in enumerate(tu):
        agree(inp, g, i, expected(inp, t, u, sum(lens)))


def collinear(inp):
    """several traces on one line: T from the line, U from the end the rupture runs from, whatever their order"""
    Q = setup(inp)
    d = rupt.pair(inp, rupt.DIRS[inp.p['dir']])
    back = (-d[0], -d[1])
    at, spans, polys = inp.const('0'), [], []
    start = rupt.pt(inp, '1/10', '1/5', '2')
    for i, sg in enumerate(inp.p['signs']):
        l, gap = inp.real(f'L{i}', 1, 20), inp.real(f'gap{i}', 1, 20)
        spans.append((at, at + l))
        n = inp.p.get('pieces', 1) if i == 0 else 1
        lens = [l / n] * n
        if sg > 0:
            polys.append(ring(*part(inp, rupt.offset(start, d, at), d, lens)))
        else:
            polys.append(ring(*part(inp, rupt.offset(start, d, at + l), back, lens)))
        at = at + l + gap
    ahead = sum(s * (b - a) for s, (a, b) in zip(inp.p['signs'], spans))
    inp.assume(inp.any([ahead > 0.01, ahead < -0.01]))
    r = inp.call('quad', Q, rupt.geojson([polys[i] for i in inp.p['order']]), rupt.origin(inp))
    t, u = inp.real('t', -60, 60), inp.real('u', -60, 60)
    if inp.p.get('on'):
        t = inp.const('0')
    else:
        inp.assume(inp.any([t > 1e-2, t < -1e-2]))
    g = gc2(inp, r, [place(inp, start, d, t, u)])
    inp.reach('collinear')
    end = spans[-1][1]
    length = sum(b - a for a, b in spans)
    if not ahead > 0:
        t, u = -t, end - u
    want = expected(inp, t, u, end)
    want['ry'] = u - length / 2
    agree(inp, g, 0, want, tol=1e-4)


LINES = {'a': (('0', '0'), 'n', '12'), 'b': (('5', '15'), 'ne', '10'), 'c': (('-6', '8'), 'n', '7'), 'd': (('4', '30'), 'sw', '9')}


def between(inp, v, xs, what):
    """v lies between the smallest and the largest of xs"""
    lo, hi = xs[0], xs[0]
    for x in xs[1:]:
        lo, hi = x if x < lo else lo, x if x > hi else hi
    e = 0 if inp.symbolic else 1e-5
    inp.check(v >= lo - e, lambda: f'{what} {v} below {xs}')
    inp.check(v <= hi + e, lambda: f'{what} {v} above {xs}')


def spot(inp):
    """site on a line across the traces"""
    w = inp.real('w', -40, 40) / rupt.KM
    k = inp.const(inp.p['at'][1]) / rupt.KM
    return [w, k] if inp.p['at'][0] == 'y' else [k, w]


def order(inp):
    """traces in any position: the order in which they are listed does not matter, T is a mean of the traces'"""
    Q = setup(inp)
    polys = []
    for k in inp.p['lines']:
        (x, y), d, l = LINES[k]
        p = [inp.const(x) / rupt.KM, inp.const(y) / rupt.KM, inp.const('2')]
        polys.append((p, rupt.pair(inp, rupt.DIRS[d]), inp.const(l)))
    rs = [inp.call('quad', Q, rupt.geojson([ring(*part(inp, p, d, [l])) for p, d, l in ps]), rupt.origin(inp))
          for ps in (polys, polys[::-1])]
    s = spot(inp)
    ts = []
    for p, d, l in polys:
        v = [(s[0] - p[0]) * rupt.KM, (s[1] - p[1]) * rupt.KM]
        t = v[0] * d[1] - v[1] * d[0]
        inp.assume(inp.any([t > 1e-2, t < -1e-2]))
        ts.append(t)
    g, h = [gc2(inp, r, [s]) for r in rs]
    inp.reach('order')
    for k in ('T', 'U', 'rx', 'ry', 'ry0'):
        a, b = g[k][0], h[k][0]
        inp.check(inp.close(a, b, 1e-4), lambda: f'{k} is {a} and {b} with the traces the other way round')
    t = g['T'][0]
    if inp.p['same']:
        between(inp, t, ts, 'T')


def bent(inp):
    """a trace that bends: T and U lie between those of the pieces, weighted by nearness"""
    Q = setup(inp)
    ds = [rupt.pair(inp, rupt.DIRS[k]) for k in inp.p['dirs']]
    lens = [inp.const(str(l)) for l in inp.p['lens']]
    top = [rupt.pt(inp, '1/10', '1/5', '1')]
    for d, l in zip(ds, lens):
        top.append(rupt.offset(top[-1], d, l))
    bot = [[p[0], p[1], p[2] + 8] for p in top]
    r = inp.call('quad', Q, rupt.geojson([ring(top, bot)]), rupt.origin(inp))
    s = spot(inp)
    ts, us, at = [], [], 0
    for p, d, l in zip(top, ds, lens):
        v = [(s[0] - p[0]) * rupt.KM, (s[1] - p[1]) * rupt.KM]
        ts.append(v[0] * d[1] - v[1] * d[0])
        us.append(v[0] * d[0] + v[1] * d[1] + at)
        at = at + l
    inp.assume(inp.all([inp.any([t > 1e-2, t < -1e-2]) for t in ts]))
    g = gc2(inp, r, [s])
    inp.reach('bent')
    between(inp, g['T'][0], ts, 'T')
    between(inp, g['U'][0], us, 'U')
    t, u = g['T'][0], g['U'][0]
    agree(inp, g, 0, expected(inp, t, u, sum(lens)))


S = [dict(dir=d, n=1) for d in ('n', 'ne', 'sw')] + [
    dict(dir='e', n=1, on=1), dict(dir='ne', n=2, on=1), dict(dir='se', n=1, dip='v'), dict(dir='ne', n=2, edge=1),
    dict(dir='sw', n=2), dict(dir='w', n=1, shape=(2,)), dict(dir='n', n=1, shape=(2, 1)), dict(dir='n', n=1, shape=(1, 2))]
C = [dict(dir='n', signs=(1, 1), order=(0, 1)), dict(dir='ne', signs=(1, 1), order=(1, 0)),
     dict(dir='ne', signs=(1, -1), order=(0, 1)), dict(dir='n', signs=(-1, 1), order=(1, 0), on=1),
     dict(dir='e', signs=(-1, -1), order=(0, 1)), dict(dir='n', signs=(1, 1), order=(0, 1), pieces=2)]
O = [dict(lines='ab', same=1, at=('y', '7')), dict(lines='ac', same=1, at=('x', '11')), dict(lines='abd', same=0, at=('y', '-9'))]
B = [dict(dirs=['n', 'ne'], lens=[10, 15], at=('y', '12')), dict(dirs=['ne', 'e'], lens=[12, 6], at=('x', '3'))]
HARNESSES = [
    H(straight, quick=S, bounds='straight traces of one or two pieces', reach=['straight'], obj_arrays=True),
    H(collinear, quick=C, bounds='two traces on a line, listed in either order and direction', reach=['collinear'], obj_arrays=True),
    H(order, quick=O, bounds='two or three traces at given places', reach=['order'], obj_arrays=True),
    H(bent, quick=B, bounds='one bend', reach=['bent'], obj_arrays=True),
]
