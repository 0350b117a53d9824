"""Three-dimensional vectors."""
import numpy as np

from sx.harness import H


def vec(inp, V, n, lim=100):
    c = [inp.real(f'{n}{k}', -lim, lim) for k in 'xyz']
    return V(*c), c


def parts(v):
    return [v.x, v.y, v.z]


def same(inp, v, c, tol=1e-6):
    return inp.all([inp.close(a, b, tol) for a, b in zip(parts(v), c)])


def cp(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dt(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def algebra(inp):
    V = inp.mod('impactutils.vectorutils.vector').Vector
    v, a = vec(inp, V, 'a')
    w, b = vec(inp, V, 'b')
    k = inp.real('k', -50, 50)
    inp.reach('built')
    inp.check(same(inp, v + w, [p + q for p, q in zip(a, b)]), lambda: f'{a}+{b} = {v + w}')
    inp.check(same(inp, v - w, [p - q for p, q in zip(a, b)]), lambda: f'{a}-{b} = {v - w}')
    inp.check(same(inp, v * k, [p * k for p in a]), lambda: f'{a}*{k} = {v * k}')
    inp.check(same(inp, k * v, [p * k for p in a]), lambda: f'{k}*{a} = {k * v}')
    inp.check(same(inp, v.cross(w), cp(a, b)), lambda: f'{a} x {b} = {v.cross(w)}')
    inp.check(inp.close(v.dot(w), dt(a, b)), lambda: f'{a} . {b} = {v.dot(w)}')
    for x, c in ((v, a), (w, b)):
        inp.check(same(inp, x, c, 0), lambda: f'operand changed: {x} was {c}')
        inp.check(inp.all([p == q for p, q in zip(x.getTuple(), c)] + [len(x.getTuple()) == 3]), 'tuple')
        inp.check(inp.all([p == q for p, q in zip(list(x.getArray()), c)]), 'array')
    inp.check(same(inp, V.fromTuple(tuple(a)), a, 0), 'from tuple')


def length(inp):
    V = inp.mod('impactutils.vectorutils.vector').Vector
    v, a = vec(inp, V, 'a')
    w, b = vec(inp, V, 'b')
    m = inp.call('magnitude', v.mag)
    d = inp.call('distance', v.distance, w)
    inp.reach('length')
    inp.check(inp.all([m >= 0, inp.close(m * m, dt(a, a))]), lambda: f'|{a}| = {m}')
    e = [p - q for p, q in zip(a, b)]
    inp.check(inp.all([d >= 0, inp.close(d * d, dt(e, e), 1e-5)]), lambda: f'distance {a} {b} = {d}')


def unit(inp):
    V = inp.mod('impactutils.vectorutils.vector').Vector
    v, a = vec(inp, V, 'a')
    inp.assume(dt(a, a) >= 0.01)
    n = inp.call('norm', v.norm)
    inp.reach('unit')
    q = parts(n)
    inp.check(inp.close(dt(q, q), 1.0), lambda: f'norm of {a} = {n}')
    inp.check(inp.all([inp.close(t, 0.0) for t in cp(q, a)] + [dt(q, a) > 0]), lambda: f'norm of {a} = {n}: direction')
    inp.check(same(inp, v, a, 0), 'operand changed')


def equality(inp):
    V = inp.mod('impactutils.vectorutils.vector').Vector
    v, a = vec(inp, V, 'a')
    w, b = vec(inp, V, 'b')
    r = inp.call('eq', lambda: v == w)
    inp.reach('eq')
    inp.check((r is True) == inp.all([p == q for p, q in zip(a, b)]), lambda: f'{a} == {b}: {r}')
    inp.check((v == V(*a)) is True, lambda: f'{a} not equal to itself')


OPS = ['add', 'sub', 'eq', 'distance', 'cross', 'dot', 'mul', 'rmul']
BAD = [None, 'word', [1, 2, 3], (1, 2, 3), {}, 2.5, 3]


def refused(inp):
    V = inp.mod('impactutils.vectorutils.vector').Vector
    v, a = vec(inp, V, 'a')
    op = inp.p['op']
    bad = inp.choice('bad', BAD[:-2] if op in ('mul', 'rmul') else BAD)
    f = {'add': lambda: v + bad, 'sub': lambda: v - bad, 'eq': lambda: v == bad, 'mul': lambda: v * bad,
         'rmul': lambda: v.__rmul__(bad)}.get(op) or (lambda: getattr(v, op)(bad))
    r, e = inp.raises(f)
    inp.reach('refused')
    inp.check(isinstance(e, TypeError), lambda: f'{op} with {bad!r}: {r!r} {e!r}')


HARNESSES = [
    H(algebra, bounds='every pair of vectors with components in [-100,100], factor in [-50,50]', reach=['built']),
    H(length, bounds='every pair of vectors with components in [-100,100]', reach=['length']),
    H(unit, bounds='every vector of length 0.1 or more', reach=['unit']),
    H(equality, bounds='every pair of vectors', reach=['eq']),
    H(refused, quick=[dict(op=o) for o in OPS], bounds='eight operations, operands of seven other types', reach=['refused']),
]
ASSUMPTIONS = ['components are exact reals; replays use floats and the tolerance 1e-6']
