"""Vectors, meshes and slip of single quadrilaterals."""
import math

from sx import flat
from sx.harness import H
from props import rupt
from props.C32 import frame


def setup(inp):
    flat.install(inp)
    return inp.mod('impactutils.rupture.utils')


def points(q):
    return [flat.Point(*p) for p in q]


def components(v):
    return [v.x, v.y, v.z]


def is_vec(inp, v, want, tol=1e-6):
    return inp.all([inp.close(a, b, tol) for a, b in zip(components(v), want)])


def shape(inp):
    d, dip = rupt.pair(inp, rupt.DIRS[inp.p['dir']]), rupt.pair(inp, rupt.DIPS[inp.p['dip']])
    L, W = inp.real('L', 1, 50), inp.real('W', 1, 30)
    z = inp.real('z', 0, 20)
    x, y = inp.real('x', -1, 1), inp.real('y', -1, 1)
    L2 = inp.real('L2', 1, 50) if inp.p.get('trap') else L
    sk = inp.real('skew', -5, 5) if inp.p.get('trap') else inp.const('0')
    return d, dip, L, W, rupt.quad([x, y, z], d, dip, L, W, L2, sk)


def vectors(inp):
    """length, width, dip, directions of one trapezoid, and turned round"""
    U = setup(inp)
    d, dip, L, W, q = shape(inp)
    P = points(q)
    u, v, n = frame(d, dip)
    inp.reach('vectors')
    inp.check(inp.close(inp.call('length', U.get_quad_length, P), L, 1e-5), 'length')
    w = inp.call('width', U.get_quad_width, P)
    inp.check(inp.close(w, W, 1e-5), lambda: f'width {w} expected {W}')
    g = inp.call('dip', U.get_quad_dip, P)
    inp.check(inp.close(g, 90 - rupt.angle(rupt.DIPS[inp.p['dip']]), 1e-3), lambda: f'dip {g}')
    for name, f, want in (('strike', U.get_quad_strike_vector, u), ('down dip', U.get_quad_down_dip_vector, v),
                          ('normal', U.get_quad_normal, [-c for c in n]), ('up', U.get_vertical_vector, [0, 0, 1])):
        r = inp.call(name, f, P)
        inp.check(is_vec(inp, r, want), lambda: f'{name} {r} expected {want}')
    inp.check(inp.all([rupt.point_close(inp, a, b, 0) for a, b in zip(P, q)]), 'quadrilateral changed')
    R = inp.call('reverse', U.reverse_quad, P)
    inp.check(R[0] is P[1] and R[1] is P[0] and R[2] is P[3] and R[3] is P[2], 'reversed')
    r = inp.call('reversed strike', U.get_quad_strike_vector, R)
    inp.check(is_vec(inp, r, [-c for c in u]), lambda: f'reversed strike {r}')


def mesh(inp):
    """nodes divide the edges evenly, closest to the spacing asked for"""
    U = setup(inp)
    d, dip = rupt.pair(inp, rupt.DIRS[inp.p['dir']]), rupt.pair(inp, rupt.DIPS[inp.p['dip']])
    nx, ny = inp.p['n']
    dx = inp.real('dx', '1/2', 10)
    L, W = inp.real('L', '1/10', 50), inp.real('W', '1/10', 50)
    k = inp.p.get('taper')
    # lengths of the sides are W for rectangles, W/c for tapered ones (three-four-five)
    q = rupt.quad(rupt.pt(inp, '1/10', '1/5', inp.real('z', 0, 20)), d, dip, L, W, *([L, W * inp.const(k)] if k else []))
    side = W * inp.const({None: '1', '3/4': '5/4', '-12/5': '13/5'}[k])
    # numbers of intervals, the nearest whole number (either at a tie) but at least one
    for n, t in ((nx, L), (ny, side)):
        inp.assume(inp.all([t < dx * inp.const(str(n - 1)) + dx / 2, n == 2 or t > dx * inp.const(str(n - 1)) - dx / 2]))
    m = inp.call('mesh', U.get_quad_mesh, points(q), dx)
    inp.reach('mesh')
    e = [[1000 * c for c in rupt.enu(p)] for p in q]

    def at(a, b):
        return [(e[0][i] + (e[1][i] - e[0][i]) * a) * (1 - b) + (e[3][i] + (e[2][i] - e[3][i]) * a) * b for i in range(3)]
    fx = [inp.const(f'{i}/{nx - 1}') for i in range(nx)]
    fy = [inp.const(f'{i}/{ny - 1}') for i in range(ny)]
    for i, ax in enumerate('xyz'):
        node = [[at(a, b)[i] for a in fx] for b in fy]

        def same(key, want):
            g = m[key]
            inp.check(tuple(g.shape) == (len(want), len(want[0])), lambda: f'{key} has shape {g.shape}')
            inp.check(inp.all([inp.close(g[r, c], want[r][c], 1e-3) for r in range(len(want)) for c in range(len(want[0]))]),
                      lambda: f'{key} {g} expected {want}')
        same(ax, node)
        for key, r, c in (('ul', 0, 0), ('ur', 0, 1), ('ll', 1, 0), ('lr', 1, 1)):
            same(key + ax, [[node[j + r][k + c] for k in range(nx - 1)] for j in range(ny - 1)])
        same('cp' + ax, [[at((fx[k] + fx[k + 1]) / 2, (fy[j] + fy[j + 1]) / 2)[i] for k in range(nx - 1)] for j in range(ny - 1)])


def slip_parts(inp):
    """total slip = strike slip + dip slip, each of its size"""
    U = setup(inp)
    st, ss, sc = inp.angle('strike', -360, 720, 180.0)
    dip, ds, dc = inp.angle('dip', 0, 90, 180.0)
    rk, rs, rc = inp.angle('rake', -180, 360, 180.0)
    inp.reach('parts')
    t = inp.call('slip', U.get_local_unit_slip_vector, st, dip, rk)
    a = inp.call('strike slip', U.get_local_unit_slip_vector_SS, st, dip, rk)
    b = inp.call('dip slip', U.get_local_unit_slip_vector_DS, st, dip, rk)
    inp.check(is_vec(inp, a, [rc * ss, rc * sc, 0], 1e-9), lambda: f'strike slip {a}')
    inp.check(inp.close(b.z, rs * ds, 1e-9), lambda: f'rise {b.z}')
    inp.check(is_vec(inp, t, [x + y for x, y in zip(components(a), components(b))], 1e-9), lambda: f'slip {t} is not {a} + {b}')
    h = b.x * b.x + b.y * b.y
    inp.check(inp.close(h, rs * rs * dc * dc, 1e-9), lambda: f'horizontal dip slip {h}')


def slip_plane(inp):
    """slip stays in the fault plane: a unit vector in the direction of the rake"""
    U = setup(inp)
    d, dip = rupt.DIRS[inp.p['dir']], rupt.DIPS[inp.p['dip']]
    rk, rs, rc = (0.0, *rupt.pt(inp, '0', '1')) if inp.p.get('along') else inp.angle('rake', -180, 180, 180.0)
    u, v, n = frame(rupt.pair(inp, d), rupt.pair(inp, dip))
    want = [rc * a - rs * b for a, b in zip(u, v)]
    st, dp = rupt.angle(d), 90 - rupt.angle(dip)
    inp.reach('plane')
    if inp.p['what'] == 'local':
        t = inp.call('slip', U.get_local_unit_slip_vector, st, dp, rk)
    else:
        q = rupt.quad(rupt.pt(inp, '1/10', '1/5', 3), rupt.pair(inp, d), rupt.pair(inp, dip), inp.real('L', 1, 50), inp.real('W', 1, 30))
        t = inp.call('slip', U.get_quad_slip, points(q), rk)
    inp.check(is_vec(inp, t, want, 1e-4), lambda: f'slip {t} expected {want}')


V = [dict(dir=d, dip=p) for d, p in (('n', 'd'), ('ne', 's'), ('w', 'f'), ('sw', 'v'))] + [dict(dir='se', dip='d', trap=1)]
M = [dict(dir='ne', dip='d', n=[2, 2]), dict(dir='e', dip='s', n=[3, 2]), dict(dir='n', dip='v', n=[2, 3]), dict(dir='se', dip='f', n=[4, 3]),
     dict(dir='w', dip='d', n=[2, 2], taper='3/4'), dict(dir='ne', dip='s', n=[3, 3], taper='-12/5')]
S = [dict(dir=d, dip=p, what=w) for d, p in (('ne', 'd'), ('se', 's')) for w in ('local', 'quad')]
S0 = [dict(dir='n', dip='v', what='local'), dict(dir='e', dip='d', what='local'), dict(dir='w', dip='v', what='local'), dict(dir='ne', dip='v', what='local')] + [dict(dir=d, dip=p, what='quad', along=1) for d, p in (('ne', 'd'), ('w', 's'))]

HARNESSES = [
    H(vectors, quick=V, reach=['vectors'], obj_arrays=True, bounds='every length, width, depth and place, five orientations'),
    H(mesh, quick=M, thorough=M + [dict(dir='ne', dip='d', n=[5, 4])], reach=['mesh'], obj_arrays=True,
      bounds='every length, width, depth and spacing that make at most 4 by 3 nodes'),
    H(slip_parts, quick=[{}], reach=['parts'], bounds='every strike, dip and rake'),
    H(slip_plane, quick=S0 + S, reach=['plane'], obj_arrays=True, bounds='every rake, orientations from a table'),
]
ASSUMPTIONS = ['flat-Earth chart: exact relations between directions, distances and coordinates']
