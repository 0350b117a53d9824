"""Shims for builtins / math / numpy / os.path / re called with symbolic args."""
import builtins
import copy
import math
import operator
import os
import posixpath
import re

import numpy as np
import z3

from . import core, strs, trig, instrument
from .calls import reg, any_sym
from .vals import *                # noqa
from .vals import _ok
from .strs import SStr, SBytes, has_sym, mk, plain

from .calls import OBJ as OBJ_ARRAYS


# ------------------------------------------------------------ builtins
def b_int(x=0, *a):
    if isinstance(x, SStr):
        if a and a[0] != 10:
            return int(plain(x), *a)
        return strs.parse_int(x)
    if isinstance(x, np.ndarray):
        return b_int(x.item())
    return sint(x)


def b_float(x=0.0):
    if isinstance(x, SStr):
        return strs.parse_float(x)
    if isinstance(x, np.ndarray):
        return b_float(x.item())
    return as_float(x)


def b_str(x='', *a):
    if isinstance(x, SBytes) and a:
        return x.decode()
    return strs.sstr(x) if is_sym(x) else str(x)


def b_repr(x):
    return strs.sstr(x) if isinstance(x, (SNum, SBool)) else repr(x)


def pytype(x):
    t = getattr(x, '_pytype', None)
    if t is not None:
        return t
    if isinstance(x, SBool):
        return bool
    if isinstance(x, SInt):
        return int
    if isinstance(x, SReal):
        return float
    if isinstance(x, SBytes):
        return bytes
    if isinstance(x, SStr):
        return str
    return type(x)


def b_isinstance(x, t):
    if is_sym(x):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for q in ts:
            flat += list(q) if isinstance(q, tuple) else [q]
        p = pytype(x)
        out = False
        for q in flat:
            try:
                if issubclass(p, q):
                    out = True
            except TypeError:
                pass
            if p is float and q in (np.floating, np.float64):
                out = out or q is np.float64 and False
        return out
    return isinstance(x, t)


def b_type(x, *a):
    if a:
        return type(x, *a)
    return pytype(x)


def b_round(x, n=None):
    if isinstance(x, np.ndarray):
        return round(x, n)
    return sround(x, n)


def b_bool(x):
    return bool(x)


def b_abs(x):
    return abs(x)


def b_map(f, *its):
    from .calls import call
    return iter([call(f, *xs) for xs in zip(*its)])


def b_minmax(op):
    def f(*args, key=None, default=None):
        items = list(args[0]) if len(args) == 1 else list(args)
        if not items:
            if default is not None:
                return default
            raise ValueError('arg is an empty sequence')
        best = items[0]
        kb = key(best) if key else best
        for x in items[1:]:
            kx = key(x) if key else x
            if (kx < kb) if op == 'min' else (kx > kb):
                best, kb = x, kx
        return best
    return f


def b_chr(x):
    return mk([x.e]) if isinstance(x, SInt) else chr(x)


def b_ord(x):
    if isinstance(x, SStr):
        if len(x) != 1:
            raise TypeError('ord() expected a character')
        c = x.cs[0]
        return ord(c) if isinstance(c, str) else mkint(c)
    return ord(x)


def b_bytes(x=b'', *a):
    if isinstance(x, SBytes):
        return x
    if isinstance(x, SStr):
        return x.encode()
    return bytes(x, *a)


def b_len(x):
    return len(x)


def b_divmod(a, b):
    return (a // b, a % b)


def b_pow(a, b, *m):
    return a ** b


def b_sorted(x, key=None, reverse=False):
    from functools import cmp_to_key
    xs = list(x)
    return sorted(xs, key=key, reverse=reverse)


def b_format(x, spec=''):
    return strs.fmt_value(x, spec) if is_sym(x) else format(x, spec)


def b_print(*a, **k):
    return None


def b_range(*a):
    return range(*[x.__index__() if is_sym(x) else x for x in a])


def b_sum(x, start=0):
    r = start
    for y in x:
        r = r + y
    return r


# ------------------------------------------------------------ numpy
def arr(x):
    return x if isinstance(x, np.ndarray) else None


def elementwise(f):
    def g(x, *a, **k):
        k.pop('out', None)
        if isinstance(x, (list, tuple)):
            x = np.array(x, dtype=object)
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = f(x[i], *a, **k)
            return out if x.shape != () else out.item()
        return f(x, *a, **k)
    return g


def elementwise2(f):
    def g(x, y, *a, **k):
        x = np.asarray(x, dtype=object) if isinstance(x, (list, tuple, np.ndarray)) else x
        y = np.asarray(y, dtype=object) if isinstance(y, (list, tuple, np.ndarray)) else y
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            bx, by = np.broadcast_arrays(objarr(x), objarr(y))
            out = np.empty(bx.shape, dtype=object)
            for i in np.ndindex(bx.shape):
                out[i] = f(bx[i], by[i])
            return out if out.shape != () else out.item()
        return f(x, y)
    return g


def objarr(x):
    if isinstance(x, np.ndarray):
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return np.array(x, dtype=object)
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def np_array(x, dtype=None, *a, **k):
    k.pop('copy', None)
    nd = k.pop('ndmin', 0)
    if is_sym(x) and not isinstance(x, SStr):
        r = objarr(x)
    else:
        r = np.array(x, dtype=object)
    if dtype is not None and dtype is not object:
        r = elementwise(lambda v: cast(v, np.dtype(dtype).type) if is_sym(v) else v)(r)
        if not isinstance(r, np.ndarray):
            r = objarr(r)
    while r.ndim < nd:
        r = r[None]
    return r


def np_asarray(x, dtype=None, *a, **k):
    if isinstance(x, np.ndarray):
        return x
    return np_array(x, dtype)


def np_isnan(x):
    return as_bool(elementwise(lambda v: False if is_sym(v) else bool(np.isnan(v)))(x))


def as_bool(r):
    return r.astype(bool) if isinstance(r, np.ndarray) else r


def np_isfinite(x):
    return as_bool(elementwise(lambda v: True if is_sym(v) else bool(np.isfinite(v)))(x))


def np_isinf(x):
    return elementwise(lambda v: False if is_sym(v) else bool(np.isinf(v)))(x)


def _bools(x, f):
    x = objarr(x) if not isinstance(x, np.ndarray) else x
    r = np.array([f(v) for v in x.flat], dtype=bool).reshape(x.shape)
    return r if r.ndim else bool(r)


def np_where(c, *a):
    if not a:
        m = np.array([bool(v) for v in np.asarray(c, dtype=object).flat], dtype=bool).reshape(np.shape(c))
        return np.where(m)
    x, y = a
    bc, bx, by = np.broadcast_arrays(objarr(c), objarr(x), objarr(y))
    out = np.empty(bc.shape, dtype=object)
    for i in np.ndindex(bc.shape):
        cc = bc[i]
        if is_sym(cc) and (_ok(bx[i]) and _ok(by[i])) and not (
                is_nonfinite(bx[i]) or is_nonfinite(by[i])):
            out[i] = ite(cc if isinstance(cc, SBool) else cc != 0, bx[i], by[i])
        else:
            out[i] = bx[i] if cc else by[i]
    return out


def close(a, b, rtol=1e-5, atol=1e-8, **k):
    if is_nonfinite(a) or is_nonfinite(b):
        return False
    return abs(a - b) <= abs(b) * rtol + atol


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return elementwise2(lambda x, y: close(x, y, rtol, atol))(a, b)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    r = np_isclose(a, b, rtol, atol)
    if isinstance(r, np.ndarray):
        return bool(sand(*[v for v in r.flat]))
    return bool(r)


def np_clip(x, lo=None, hi=None, **k):
    lo = k.pop('a_min', lo)
    hi = k.pop('a_max', hi)
    def f(v):
        if lo is not None and v < lo:
            return lo
        if hi is not None and v > hi:
            return hi
        return v
    return elementwise(f)(x)


def np_max2(op):
    def f(a, b):
        for q in (a, b):
            if is_nonfinite(q) and q != q:
                return q
        return (a if a >= b else b) if op == 'max' else (a if a <= b else b)
    return elementwise2(f)


def np_reduce(op):
    def f(x, axis=None, **k):
        x = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
        if axis is None:
            return b_minmax(op)(list(x.flat)) if x.size else getattr(np, op)(x)
        x2 = np.moveaxis(x, axis, -1)
        out = np.empty(x2.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = b_minmax(op)(list(x2[i]))
        return out
    return f


def np_nanreduce(op):
    def f(x, axis=None, **k):
        v = [q for q in np.asarray(x, dtype=object).flat if is_sym(q) or q == q]
        return b_minmax(op)(v)
    return f


def np_make(real):
    """zeros/ones/empty/...: object arrays when the harness asks for them"""
    def f(*a, **k):
        dt = k.get('dtype')
        pos = {'full': 2, 'full_like': 2}.get(real.__name__, 1)
        if len(a) > pos:
            dt = a[pos]
        a = tuple(x.__index__() if isinstance(x, SInt) else x for x in a)
        if OBJ_ARRAYS[0] and (dt is None or dt in (float, np.float64, np.float32)):
            if real.__name__ in ('full', 'full_like'):
                if any_sym(a[1:2], {}):
                    shp = a[0] if real.__name__ == 'full' else np.shape(a[0])
                    r = np.empty(shp, dtype=object)
                    r[...] = a[1]
                    return r
            k2 = {q: v for q, v in k.items() if q != 'dtype'}
            r = real(*a[:pos], **k2)
            if r.dtype.kind == 'f' or r.dtype == object:
                r = r.astype(object)
                if real.__name__ in ('empty', 'empty_like'):
                    r[...] = 0.0
            return r
        return real(*a, **k)
    return f


def np_dot(a, b):
    return np.dot(objarr(a), objarr(b))


def np_norm(x, ord=None, axis=None, **k):
    x = np.asarray(x, dtype=object)
    if axis is not None:
        s = np.sum(x * x, axis=axis)
        return elementwise(trig.sqrt)(s)
    return trig.sqrt(sum(v * v for v in x.flat))


def np_cross(a, b, **k):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    out[..., 0] = a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1]
    out[..., 1] = a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2]
    out[..., 2] = a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    return out


def np_det(m):
    m = [list(r) for r in np.asarray(m, dtype=object)]
    if len(m) == 1:
        return m[0][0]
    r = 0
    for j in range(len(m)):
        minor = np_det([row[:j] + row[j + 1:] for row in m[1:]])
        r = r + (-1) ** j * m[0][j] * minor
    return r


def np_interp(x, xp, fp, **k):
    def f(v):
        xs, fs = list(xp), list(fp)
        if v <= xs[0]:
            return fs[0]
        for i in range(len(xs) - 1):
            if v <= xs[i + 1]:
                t = (v - xs[i]) / (xs[i + 1] - xs[i])
                return fs[i] + t * (fs[i + 1] - fs[i])
        return fs[-1]
    return elementwise(f)(x)


def np_mean(x, axis=None, **k):
    if axis is None:
        v = list(np.asarray(x, dtype=object).flat)
        return sum(v) / len(v)
    return np.mean(np.asarray(x, dtype=object), axis=axis)


def np_sum(x, axis=None, **k):
    return np.sum(np.asarray(x, dtype=object), axis=axis)


def np_any(x, **k):
    return any(bool(v) for v in np.asarray(x, dtype=object).flat)


def np_all(x, **k):
    return all(bool(v) for v in np.asarray(x, dtype=object).flat)


def np_logical(op):
    def f(a, b):
        a = a if isinstance(a, (SBool, bool, np.bool_)) else (a != 0)
        b = b if isinstance(b, (SBool, bool, np.bool_)) else (b != 0)
        return sand(a, b) if op == 'and' else sor(a, b)
    return elementwise2(f)


def np_sign(x):
    return elementwise(lambda v: ite(v > 0, 1.0, ite(v < 0, -1.0, 0.0)) if is_sym(v) else np.sign(v))(x)


def np_arange(*a, **k):
    return np.arange(*[float(x) if isinstance(x, SReal) else x.__index__() if is_sym(x) else x for x in a], **k)


def np_argm(op):
    def f(x, axis=None, **k):
        x = np.asarray(x, dtype=object)
        best = 0
        v = list(x.flat)
        for i in range(1, len(v)):
            if (v[i] < v[best]) if op == 'min' else (v[i] > v[best]):
                best = i
        return best
    return f


def np_argsort(x, **k):
    import functools
    v = list(np.asarray(x, dtype=object).flat)
    return np.array(sorted(range(len(v)), key=functools.cmp_to_key(
        lambda i, j: -1 if v[i] < v[j] else (1 if v[i] > v[j] else 0))), dtype=int)


def np_scalar(kind):
    def f(x=0):
        return as_float(x) if kind == 'f' else sint(x)
    return f


# ------------------------------------------------------------ registration
def register():
    R = reg
    R(int, b_int)
    R(float, b_float)
    R(str, b_str)
    R(repr, b_repr)
    R(isinstance, b_isinstance)
    R(type, b_type)
    R(round, b_round)
    R(bool, b_bool)
    R(map, b_map)
    R(min, b_minmax('min'))
    R(max, b_minmax('max'))
    R(chr, b_chr)
    R(ord, b_ord)
    R(bytes, b_bytes)
    R(divmod, b_divmod)
    R(pow, b_pow)
    R(format, b_format)
    R(range, b_range)
    R(sum, b_sum)
    R(print, b_print, True)

    def b_hash(x):
        return hash(x)

    import datetime
    from . import symtime
    R(datetime.timedelta, symtime.mkdelta)

    # math
    R(math.sqrt, trig.sqrt)
    R(math.sin, trig.sin)
    R(math.cos, trig.cos)
    R(math.tan, trig.tan)
    R(math.asin, trig.arcsin)
    R(math.acos, trig.arccos)
    R(math.atan, trig.arctan)
    R(math.atan2, trig.arctan2)
    R(math.radians, trig.radians)
    R(math.degrees, trig.degrees)
    R(math.hypot, trig.hypot)
    R(math.exp, trig.exp)
    R(math.log, lambda x, *b: trig.log(x) / math.log(*b) if b else trig.log(x))
    R(math.log10, trig.log10)
    R(math.pow, lambda a, b: as_float(a ** b))
    R(math.fabs, lambda x: as_float(abs(x)))
    R(math.floor, lambda x: x.__floor__())
    R(math.ceil, lambda x: x.__ceil__())
    R(math.trunc, sint)
    R(math.isnan, lambda x: False)
    R(math.isinf, lambda x: False)
    R(math.isfinite, lambda x: True)
    R(math.fmod, lambda a, b: as_float(a) - as_float(b) * as_float(sint(as_float(a) / b)))
    R(math.modf, lambda x: (as_float(x) - as_float(sint(x)), as_float(sint(x))))
    R(math.isclose, lambda a, b, rel_tol=1e-9, abs_tol=0.0:
      sor(abs(a - b) <= abs_tol, abs(a - b) <= rel_tol * b_minmax('max')(abs(a), abs(b))))
    R(math.copysign, lambda a, b: ite(b >= 0, abs(a), -abs(a)))

    # numpy
    for n in ('sqrt', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'exp', 'log',
              'log10', 'radians', 'degrees', 'deg2rad', 'rad2deg'):
        def scalar(v, fn=getattr(trig, n), cf=getattr(np, n)):
            return fn(v) if is_sym(v) else cf(float(v))
        R(getattr(np, n), elementwise(scalar))
    R(np.arctan2, elementwise2(lambda a, b: trig.arctan2(a, b) if is_sym(a) or is_sym(b) else np.arctan2(float(a), float(b))))
    R(np.hypot, elementwise2(trig.hypot))
    R(np.floor, elementwise(lambda v: as_float(v.__floor__()) if is_sym(v) else np.floor(v)))
    R(np.ceil, elementwise(lambda v: as_float(v.__ceil__()) if is_sym(v) else np.ceil(v)))
    R(np.rint, elementwise(lambda v: as_float(sround(v)) if is_sym(v) else np.rint(v)))
    R(np.trunc, elementwise(lambda v: as_float(sint(v)) if is_sym(v) else np.trunc(v)))

    def np_round(v, n=0, **k):
        n = k.get('decimals', n)
        if not is_sym(v):
            return np.round(v, n)
        if isinstance(v, SInt):
            return sround(v, n)
        return sround(v, n) if n else as_float(sround(v))
    R(np.round, elementwise(np_round))
    R(np.around, elementwise(np_round))
    R(np.abs, elementwise(abs))
    R(np.fabs, elementwise(abs))
    R(np.signbit, lambda x: _bools(x, lambda v: bool(v < 0)))
    R(np.square, elementwise(lambda v: v * v))
    R(np.power, elementwise2(lambda a, b: a ** b))
    R(np.mod, elementwise2(lambda a, b: a % b))
    R(np.array, np_array)
    R(np.asarray, np_asarray)
    R(np.asanyarray, np_asarray)
    R(np.atleast_1d, lambda x: np_array(x, ndmin=1) if not isinstance(x, np.ndarray) else (x if x.ndim else x.reshape(1)))
    R(np.isnan, np_isnan)
    R(np.isfinite, np_isfinite)
    R(np.isinf, np_isinf)
    R(np.where, np_where)
    R(np.isclose, np_isclose)
    R(np.allclose, np_allclose)
    R(np.clip, np_clip)
    R(np.maximum, np_max2('max'))
    R(np.minimum, np_max2('min'))
    R(np.fmax, np_max2('max'))
    R(np.fmin, np_max2('min'))
    R(np.min, np_reduce('min'))
    R(np.max, np_reduce('max'))
    R(np.amin, np_reduce('min'))
    R(np.amax, np_reduce('max'))
    R(np.nanmin, np_nanreduce('min'))
    R(np.nanmax, np_nanreduce('max'))
    R(np.argmin, np_argm('min'))
    R(np.argmax, np_argm('max'))
    R(np.argsort, np_argsort)
    for n in ('zeros', 'ones', 'empty', 'zeros_like', 'ones_like', 'empty_like', 'full', 'full_like'):
        R(getattr(np, n), np_make(getattr(np, n)), True)
    R(np.dot, np_dot)
    R(np.linalg.norm, np_norm)
    R(np.cross, np_cross)
    R(np.linalg.det, np_det)
    R(np.interp, np_interp)
    R(np.mean, np_mean)
    R(np.average, lambda x, axis=None, weights=None, **k: np_mean(x, axis) if weights is None else
      np.sum(objarr(x) * objarr(weights), axis=axis) / np.sum(objarr(weights), axis=axis))
    R(np.sum, np_sum)
    R(np.any, np_any)
    R(np.all, np_all)
    R(np.logical_and, np_logical('and'))
    R(np.logical_or, np_logical('or'))
    R(np.logical_not, elementwise(lambda v: snot(v if isinstance(v, (SBool, bool)) else v != 0)))
    R(np.sign, np_sign)
    R(np.arange, np_arange)
    R(np.isscalar, lambda x: True)
    R(np.iterable, lambda x: isinstance(x, SStr))
    R(np.float64, np_scalar('f'))
    R(np.float32, np_scalar('f'))
    R(np.int64, np_scalar('i'))
    R(np.int32, np_scalar('i'))
    R(np.deg2rad, elementwise(lambda v: trig.radians(v)))
    R(np.rad2deg, elementwise(lambda v: trig.degrees(v)))
    R(np.add, elementwise2(lambda a, b: a + b))
    R(np.subtract, elementwise2(lambda a, b: a - b))
    R(np.multiply, elementwise2(lambda a, b: a * b))
    R(np.divide, elementwise2(lambda a, b: a / b))
    R(np.array_equal, lambda a, b, **k: np.shape(a) == np.shape(b) and
      all(bool(x == y) for x, y in zip(objarr(a).flat, objarr(b).flat)))

    # operator module
    R(operator.add, lambda a, b: a + b)

    # os.path through instrumented posixpath
    pp = instrument.load_instrumented(posixpath.__file__, 'sx_posixpath')
    for n in ('join', 'split', 'splitext', 'basename', 'dirname', 'isabs', 'normcase'):
        R(getattr(posixpath, n), getattr(pp, n))
    pp.normpath = _py_normpath
    R(posixpath.normpath, _py_normpath)
    R(posixpath.relpath, pp.relpath)
    R(posixpath.commonprefix, lambda m: _commonprefix(m))
    R(posixpath.abspath, lambda p: _py_normpath(p if p[:1] == '/' else _cwd() + '/' + p))
    pp.abspath = lambda p: _py_normpath(p if (p[:1] == '/') else _cwd() + '/' + p)

    def fspath(p):
        return p if is_sym(p) else os.fspath(p)
    R(os.fspath, fspath)

    import shlex
    from . import calls

    def quote(s):
        if len(s) == 0:
            return "''"
        safe = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789@%_-+=:,./'
        for c in s:
            if not calls.contains(c, safe):
                return "'" + s.replace("'", "'\"'\"'") + "'"
        return s
    R(shlex.quote, quote)

    from . import rex
    rex.register(R)


def _commonprefix(m):
    m = list(m)
    if not m:
        return ''
    n = min(len(x) for x in m)
    for i in range(n):
        if any(bool(x[i:i + 1] != m[0][i:i + 1]) for x in m[1:]):
            return m[0][:i]
    return m[0][:n]


def _cwd():
    from . import calls
    return calls.call(os.getcwd)


def _py_normpath(path):
    if not path:
        return '.'
    comps = path.split('/')
    initial = 1 if path.startswith('/') else 0
    if initial and path.startswith('//') and not path.startswith('///'):
        initial = 2
    new = []
    for c in comps:
        if not c or c == '.':
            continue
        if c != '..' or (not initial and not new) or (new and new[-1] == '..'):
            new.append(c)
        elif new:
            new.pop()
    p = strs.sjoin('/', new) if new else ''
    if initial:
        p = '/' * initial + p
    return p if len(p) else '.'
