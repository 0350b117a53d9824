"""sqrt / trigonometric functions on symbolic reals.

Angles: every declared base angle v has sine/cosine variables of its *unit*
(v times scale); sums and integer multiples of units expand by the addition
theorems, anything else becomes a fresh sine/cosine pair memoised per term.
"""
import math
from fractions import Fraction

import numpy as np
import z3

from . import core, ratfun
from .vals import (SReal, SInt, SNum, SBool, mkreal, mkint, real_e, as_float, is_sym,
                   frac, const_of)

_state = {}


def reset():
    _state.clear()
    ratfun.ON[0] = False
    ratfun.reset()
    _state.update(sqrt={}, angle={}, uf={}, units=[], pyth=set(),
                  lemma={}, dirs=[])


reset()


def ctx():
    return core.CUR


def _c(x):
    if not is_sym(x):
        return float(x)
    return None


def num(x):
    """concrete float of a possibly constant symbolic value"""
    if not is_sym(x):
        return float(x)
    f = const_of(x)
    if f is None and ratfun.ON[0] and isinstance(x, SReal):
        f = const_of(SReal(ratfun.canon(x.e)))
    return None if f is None else float(f)


def key(e):
    return z3.simplify(e, som=True).sexpr()


def sqrt(x):
    n = num(x)
    if n is not None:
        f = const_of(x)
        if f is not None and f >= 0:
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return float(Fraction(a, b)) if not is_sym(x) else mkreal(z3.RealVal(Fraction(a, b)))
        return math.sqrt(n)
    e = real_e(x)
    if ratfun.ON[0]:
        e = ratfun.canon(e)
        if const_of(SReal(e)) is not None:
            return sqrt(SReal(e))
        if _state['lemma']:
            r = _state['lemma'].get(key(e))
            if r is not None:
                return SReal(r)
            if _angular(e):  # another function of the angles: nothing is known of it
                return known_root(e, 0, 10)
        q = ratfun.roots(e)
        if q is not None and (q[1] or q[2] is None):
            k, fs, rest = q
            k2, sq = isquare(k)
            if k2 != 1:
                rest = z3.RealVal(k2) if rest is None else z3.simplify(rest * z3.RealVal(k2))
            r = z3.RealVal(sq)
            for f, n in fs:
                a = f if ctx().decide(f >= 0) else -f
                for _ in range(abs(n)):
                    r = r * a if n > 0 else r / a
            r = SReal(ratfun.canon(z3.simplify(r)))
            return r if rest is None else r * _root(rest)
    return _root(e)


def isquare(k):
    """k = k2 * sq^2 with sq rational, k2 = 1 when k is a square"""
    if k > 0:
        a, b = math.isqrt(k.numerator), math.isqrt(k.denominator)
        if a * a == k.numerator and b * b == k.denominator:
            return Fraction(1), Fraction(a, b)
    return k, Fraction(1)


def _root(e):
    if ctx().decide(e < 0):
        raise ValueError('math domain error')
    k = key(e)
    r = _state['sqrt'].get(k)
    if r is None:
        r = ctx().fresh('sqrt', 'real')
        ctx().add(z3.And(r >= 0, r * r == e))
        _state['sqrt'][k] = r
    return SReal(r)


def known_root(e, lo, hi):
    """name the square root of term e, known to lie in [lo, hi]"""
    k = key(ratfun.canon(e))
    if k not in _state['lemma']:
        r = ctx().fresh('root', 'real')
        ctx().add(z3.And(r >= lo, r <= hi))
        _state['lemma'][k] = r
    return SReal(_state['lemma'][k])


def known_direction(y, x, s=None, c=None):
    """name sine and cosine of the direction (y, x), known not to be (0, 0)"""
    y, x = ratfun.canon(y), ratfun.canon(x)
    if s is None:
        s, c = ctx().fresh('sin', 'real'), ctx().fresh('cos', 'real')
        ctx().add(s * s + c * c == 1)
    _state['dirs'].append((y, x, s, c))
    return SReal(s), SReal(c)


def _direction(ye, xe):
    for y, x, s, c in _state['dirs']:
        for k in (1, -1):
            if _zero(ye - k * y):
                for q in (1, -1):
                    if _zero(xe - q * x):
                        return k * s, q * c
    if _angular(ye) or _angular(xe):  # another function of the angles: any direction
        s, c = ctx().fresh('sin', 'real'), ctx().fresh('cos', 'real')
        ctx().add(s * s + c * c == 1)
        return s, c
    return None


def _angular(e):
    from z3.z3util import get_vars
    return any(str(v).startswith('tan_') for v in get_vars(e))


def _zero(e):
    return num(SReal(ratfun.canon(e))) == 0


def hypot(a, b):
    return sqrt(a * a + b * b)


# ------------------------------------------------------------------ angles
def declare_unit(var, scale, s, c):
    """real z3 term `var`: (var*scale radians) has sine s, cosine c (terms)."""
    _state['units'].append((var, scale, s, c))


def linear_form(e):
    """e as ({var_sexpr: coef}, const) over declared unit variables or None."""
    units = {str(u[0]): u for u in _state['units']}
    e = z3.simplify(e, som=True)
    terms = e.children() if z3.is_add(e) else [e]
    out, const = {}, Fraction(0)
    for t in terms:
        if z3.is_rational_value(t):
            const += Fraction(t.numerator_as_long(), t.denominator_as_long())
            continue
        coef = Fraction(1)
        base = t
        if z3.is_mul(t):
            ch = t.children()
            if z3.is_rational_value(ch[0]) and len(ch) == 2:
                coef = Fraction(ch[0].numerator_as_long(), ch[0].denominator_as_long())
                base = ch[1]
        n = str(base)
        if n not in units:
            return None
        out[n] = out.get(n, 0) + coef
    return out, const


def _mult(s, c, k):
    """(sin, cos) of k*angle for integer k"""
    if k < 0:
        s2, c2 = _mult(s, c, -k)
        return -s2, c2
    if k == 0:
        return z3.RealVal(0), z3.RealVal(1)
    if k == 1:
        return s, c
    h1, h2 = k // 2, k - k // 2
    s1, c1 = _mult(s, c, h1)
    s2, c2 = _mult(s, c, h2)
    return s1 * c2 + c1 * s2, c1 * c2 - s1 * s2


def sincos(x):
    n = num(x)
    if n is not None:
        return math.sin(n), math.cos(n)
    e = real_e(x)
    lf = linear_form(e)
    if lf is not None:
        out, const = lf
        S, C = None, None
        ok = True
        for nme, coef in out.items():
            u = [q for q in _state['units'] if str(q[0]) == nme][0]
            k = float(coef) / u[1]
            if abs(k - round(k)) > 1e-9:
                ok = False
                break
            s, c = _mult(u[2], u[3], int(round(k)))
            if S is None:
                S, C = s, c
            else:
                S, C = S * c + C * s, C * c - S * s
        if ok:
            q = float(const) / (math.pi / 2)
            if abs(q - round(q)) < 1e-9:
                for _ in range(int(round(q)) % 4):
                    S, C = C, -S
                if S is None:
                    S, C = z3.RealVal(0), z3.RealVal(1)
                return SReal(z3.simplify(S)), SReal(z3.simplify(C))
            if S is not None:
                s0, c0 = z3.RealVal(repr(math.sin(float(const)))), z3.RealVal(repr(math.cos(float(const))))
                return SReal(z3.simplify(S * c0 + C * s0)), SReal(z3.simplify(C * c0 - S * s0))
    k = key(e)
    r = _state['angle'].get(k)
    if r is None:
        s, c = ctx().fresh('sin', 'real'), ctx().fresh('cos', 'real')
        ctx().add(z3.And(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1))
        r = (s, c)
        _state['angle'][k] = r
    return SReal(r[0]), SReal(r[1])


def sin(x): return sincos(x)[0]
def cos(x): return sincos(x)[1]


def tan(x):
    s, c = sincos(x)
    return s / c


PI_LO = z3.RealVal('3.14159265358979')
PI_HI = z3.RealVal('3.14159265358980')


def _new_angle(s, c, lo, hi, name):
    th = ctx().fresh(name, 'real')
    ctx().add(z3.And(th >= lo, th <= hi))
    declare_unit(th, 1.0, s, c)
    return th


def arctan2(y, x):
    if num(y) is not None and num(x) is not None:
        return math.atan2(num(y), num(x))
    ye, xe = real_e(y), real_e(x)
    k = ('atan2', key(ye), key(xe))
    if k in _state['uf']:
        return SReal(_state['uf'][k])
    sc = _direction(ye, xe) if _state['dirs'] else None
    if sc is not None:
        s, c = sc
        th = _angle_of(s, c)
        _state['uf'][k] = th
        return SReal(th)
    if ctx().decide(z3.And(ye == 0, xe == 0)):
        return 0.0
    if ratfun.ON[0]:
        if ctx().decide(xe == 0):
            return math.pi / 2 if ctx().decide(ye > 0) else -math.pi / 2
        t = num(SReal(ratfun.canon(ye / xe)))
        if t is not None:
            return math.atan2(t, 1.0) if ctx().decide(xe > 0) else math.atan2(-t, -1.0)
    r = ctx().fresh('hyp', 'real')
    s, c = ctx().fresh('sin', 'real'), ctx().fresh('cos', 'real')
    ctx().add(z3.And(r > 0, r * r == xe * xe + ye * ye, r * s == ye, r * c == xe,
                     s * s + c * c == 1))
    th = _angle_of(s, c, ye, xe)
    w = num(SReal(xe))
    if w is not None and abs(w) < 1e-3:  # |atan2(y, x) -+ pi/2| <= |x/y|
        h, w = z3.RealVal(repr(math.pi / 2)), z3.RealVal(Fraction(abs(w)) + Fraction(1, 10 ** 15))
        ctx().add(z3.And(z3.Implies(ye > 1, z3.And(th - h <= w, th - h >= -w)), z3.Implies(ye < -1, z3.And(th + h <= w, th + h >= -w))))
    _state['uf'][k] = th
    return SReal(th)


def _angle_of(s, c, ye=None, xe=None):
    """the angle in (-pi, pi] of direction (s, c), whose signs are those of (ye, xe)"""
    ye, xe = (s, c) if ye is None else (ye, xe)
    th = _new_angle(s, c, -PI_HI, PI_HI, 'atan2')
    ctx().add(z3.And(z3.Implies(ye > 0, z3.And(th > 0, th < PI_HI)),
                     z3.Implies(ye < 0, z3.And(th < 0, th > -PI_HI)),
                     z3.Implies(z3.And(ye == 0, xe > 0), th == 0),
                     z3.Implies(z3.And(ye == 0, xe < 0), th == z3.RealVal(repr(math.pi))),
                     z3.Implies(xe > 0, z3.And(th > -PI_HI / 2, th < PI_HI / 2))))
    return th


def arctan(y):
    if num(y) is not None:
        return math.atan(num(y))
    if not ratfun.ON[0]:
        return arctan2(y, 1.0)
    # an odd, strictly increasing function within (-pi/2, pi/2)
    ye = ratfun.canon(real_e(y))
    if num(SReal(ye)) is not None:
        return math.atan(num(SReal(ye)))
    seen = _state['uf'].setdefault('atan', [])
    for x, a in seen:
        if num(SReal(ratfun.canon(x - ye))) == 0:
            return SReal(a)
        if num(SReal(ratfun.canon(x + ye))) == 0:
            return SReal(-a)
    th = ctx().fresh('atan', 'real')
    ctx().add(z3.And(th > -PI_HI / 2, th < PI_HI / 2, (th > 0) == (ye > 0), (th < 0) == (ye < 0)))
    for x, a in seen:
        ctx().add(z3.And((x < ye) == (a < th), (x == ye) == (a == th)))
    seen.append((ye, th))
    return SReal(th)


def arcsin(y):
    if num(y) is not None:
        return math.asin(num(y))
    ye = real_e(y)
    k = ('asin', key(ye))
    if k in _state['uf']:
        return SReal(_state['uf'][k])
    if ctx().decide(z3.Or(ye > 1, ye < -1)):
        raise ValueError('math domain error')
    c = ctx().fresh('cos', 'real')
    ctx().add(z3.And(c >= 0, c * c == 1 - ye * ye))
    th = _new_angle(ye, c, -PI_HI / 2, PI_HI / 2, 'asin')
    ctx().add(z3.And(z3.Implies(ye >= 0, th >= 0), z3.Implies(ye <= 0, th <= 0),
                     z3.Implies(ye == 0, th == 0)))
    _state['uf'][k] = th
    return SReal(th)


def arccos(y):
    if num(y) is not None:
        return math.acos(num(y))
    ye = real_e(y)
    k = ('acos', key(ye))
    if k in _state['uf']:
        return SReal(_state['uf'][k])
    if ctx().decide(z3.Or(ye > 1, ye < -1)):
        raise ValueError('math domain error')
    s = ctx().fresh('sin', 'real')
    ctx().add(z3.And(s >= 0, s * s == 1 - ye * ye))
    th = _new_angle(s, ye, z3.RealVal(0), PI_HI, 'acos')
    ctx().add(z3.And(z3.Implies(ye == 1, th == 0),
                     z3.Implies(ye == 0, th == z3.RealVal(repr(math.pi / 2))),
                     z3.Implies(ye > 0, th < PI_HI / 2), z3.Implies(ye < 0, th > PI_LO / 2)))
    _state['uf'][k] = th
    return SReal(th)


D2R = z3.RealVal(repr(math.pi / 180))
R2D = z3.RealVal(repr(180 / math.pi))


def radians(x):
    if num(x) is not None:
        return math.radians(num(x))
    return mkreal(real_e(x) * D2R)


def degrees(x):
    if num(x) is not None:
        return math.degrees(num(x))
    return mkreal(real_e(x) * R2D)


deg2rad, rad2deg = radians, degrees


def _uf(name, x, pyf, axioms=None):
    if num(x) is not None:
        return pyf(num(x))
    f = z3.Function('uf_' + name, z3.RealSort(), z3.RealSort())
    e = f(z3.simplify(real_e(x)))
    if axioms:
        ctx().add(axioms(real_e(x), e))
    return SReal(e)


def exp(x):
    return _uf('exp', x, math.exp, lambda x, e: z3.And(e > 0, e >= 1 + x))


def _logfail(x):
    if is_sym(x) and ctx().decide(real_e(x) <= 0):
        raise ValueError('math domain error')


def log(x):
    _logfail(x)
    return _uf('log', x, math.log, lambda x, e: e <= x - 1)


def log10(x):
    _logfail(x)
    return _uf('log10', x, math.log10)


def upow(a, b):
    if num(a) is not None:
        return num(a) ** float(b)
    f = z3.Function('uf_pow_%s' % repr(float(b)), z3.RealSort(), z3.RealSort())
    e = f(z3.simplify(real_e(a)))
    ctx().add(z3.Implies(real_e(a) > 0, e > 0))
    return SReal(e)
