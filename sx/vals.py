"""Symbolic values: proxies around z3 terms that behave like int/float/str."""
import builtins
import math
import numbers
from fractions import Fraction

import numpy as np
import z3

from . import core, ratfun

RealSort = z3.RealSort()


def ctx():
    return core.CUR


# ---------------------------------------------------------------- conversion
def frac(x):
    """python number -> Fraction; floats by their shortest decimal repr."""
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            raise ValueError('not finite')
        return Fraction(repr(x))
    raise TypeError(type(x))


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ()
    _sx_ = True


def isnum(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_, Fraction))


def is_nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def int_e(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return z3.IntVal(int(x))
    raise TypeError(type(x))


def real_e(x):
    if isinstance(x, SReal):
        return x.e
    if isinstance(x, (SInt, SBool)):
        return z3.ToReal(int_e(x))
    f = frac(x)
    return z3.RealVal(f)


def is_intlike(x):
    return isinstance(x, (SInt, SBool, bool, int, np.integer, np.bool_))


def bool_e(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (SInt,)):
        return x.e != 0
    if isinstance(x, SReal):
        return x.e != 0
    return z3.BoolVal(bool(x))


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mkreal(e, dec=None):
    return SReal(z3.simplify(e), dec)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def const_of(x):
    """Fraction for a numeric value that is concrete, else None."""
    if isnum(x):
        try:
            return frac(x)
        except ValueError:
            return None
    if isinstance(x, (SInt, SReal)):
        if z3.is_int_value(x.e):
            return Fraction(x.e.as_long())
        if z3.is_rational_value(x.e):
            return Fraction(x.e.numerator_as_long(), x.e.denominator_as_long())
    return None


# ------------------------------------------------------------------- bool
class SBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_intlike(o) and not isinstance(o, (SBool, bool, np.bool_)):
            return SInt(int_e(self)) & o
        return mkbool(z3.And(self.e, bool_e(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.Or(self.e, bool_e(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, bool_e(o)))
    __rxor__ = __xor__

    def __invert__(self):       # numpy style
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return mkbool(self.e == bool_e(o))
        if isnum(o) or is_sym(o):
            return mkint(int_e(self)) == o
        if isinstance(o, np.ndarray):
            return NotImplemented
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return snot(r)

    def _i(self):
        return SInt(int_e(self))

    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __hash__(self): return hash(bool(self))
    def __str__(self): return str(bool(self))
    __repr__ = __str__
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self


def snot(x):
    if isinstance(x, SBool):
        return mkbool(z3.Not(x.e))
    if x is NotImplemented:
        return x
    return not x


def sand(*xs):
    return mkbool(z3.And([bool_e(x) for x in xs])) if xs else True


def sor(*xs):
    return mkbool(z3.Or([bool_e(x) for x in xs])) if xs else False


def implies(a, b):
    return mkbool(z3.Implies(bool_e(a), bool_e(b)))


def ite(c, a, b):
    """If-then-else without forking (numbers)."""
    if not isinstance(c, SBool):
        return a if c else b
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return mkbool(z3.If(c.e, bool_e(a), bool_e(b)))
    if is_intlike(a) and is_intlike(b):
        return mkint(z3.If(c.e, int_e(a), int_e(b)))
    return mkreal(z3.If(c.e, real_e(a), real_e(b)))


# ------------------------------------------------------------------- numbers
class SNum(Sym):
    __slots__ = ()
    __array_priority__ = 1000

    # ---- helpers
    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __pos__(self):
        return self

    def __add__(self, o): return arith('+', self, o)
    def __radd__(self, o): return arith('+', o, self)
    def __sub__(self, o): return arith('-', self, o)
    def __rsub__(self, o): return arith('-', o, self)
    def __mul__(self, o): return arith('*', self, o)
    def __rmul__(self, o): return arith('*', o, self)
    def __truediv__(self, o): return arith('/', self, o)
    def __rtruediv__(self, o): return arith('/', o, self)
    def __floordiv__(self, o): return arith('//', self, o)
    def __rfloordiv__(self, o): return arith('//', o, self)
    def __mod__(self, o): return arith('%', self, o)
    def __rmod__(self, o): return arith('%', o, self)
    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)
    def __pow__(self, o, mod=None): return spow(self, o)
    def __rpow__(self, o): return spow(o, self)

    def __neg__(self):
        return mkint(-self.e) if isinstance(self, SInt) else mkreal(-self.e, self.dec and (-self.dec[0], self.dec[1]))

    def __abs__(self):
        r = z3.If(self.e >= 0, self.e, -self.e)
        return mkint(r) if isinstance(self, SInt) else mkreal(r)

    def __lt__(self, o): return compare('<', self, o)
    def __le__(self, o): return compare('<=', self, o)
    def __gt__(self, o): return compare('>', self, o)
    def __ge__(self, o): return compare('>=', self, o)
    def __eq__(self, o): return compare('==', self, o)
    def __ne__(self, o): return compare('!=', self, o)

    def __hash__(self):
        v = ctx().concretize(self.e, 'hash of symbolic number')
        return hash(v)

    def __index__(self):
        raise TypeError('float object cannot be interpreted as an integer')

    def __floor__(self):
        return mkint(self.e) if isinstance(self, SInt) else mkint(z3.ToInt(self.e))

    def __ceil__(self):
        return mkint(self.e) if isinstance(self, SInt) else mkint(-z3.ToInt(-self.e))

    def __trunc__(self):
        return sint(self)

    def __round__(self, n=None):
        return sround(self, n)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy scalar protocol / object-ufunc methods
    def sqrt(self):
        from . import trig
        return trig.sqrt(self)

    def __getattr__(self, name):
        if name in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'exp',
                    'log', 'log10', 'radians', 'deg2rad', 'degrees', 'rad2deg'):
            from . import trig
            f = getattr(trig, name)
            return lambda *a, **k: f(self)
        if name in ('arctan2', 'hypot'):
            from . import trig
            f = getattr(trig, name)
            return lambda o: f(self, o)
        raise AttributeError(name)

    def conjugate(self): return self
    def square(self): return self * self
    def floor(self): return as_float(self.__floor__())
    def ceil(self): return as_float(self.__ceil__())
    def rint(self): return as_float(sround(self))
    def round(self, n=0): return sround(self, n) if n else as_float(sround(self))
    def item(self): return self
    def tolist(self): return self

    def reshape(self, *shape, **k):
        import numpy as np
        a = np.empty((), dtype=object)
        a[()] = self
        return a.reshape(*shape)
    def copy(self): return self
    def astype(self, t, **k):
        return cast(self, t)
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def T(self): return self
    def flatten(self):
        a = np.empty(1, dtype=object)
        a[0] = self
        return a
    ravel = flatten
    def is_integer(self):
        if isinstance(self, SInt):
            return True
        return mkbool(z3.IsInt(self.e))

    def __format__(self, spec):
        from . import strs
        return str(strs.fmt_value(self, spec))

    def __str__(self):
        from . import strs
        return str(strs.sstr(self))

    def __repr__(self):
        return f'<{type(self).__name__} {self.e}>'


class SInt(SNum):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __int__(self):
        return ctx().concretize(self.e, 'int() of symbolic int inside C code')

    def __index__(self):
        return ctx().concretize(self.e, 'index of symbolic int')

    def __float__(self):
        return float(ctx().concretize(self.e, 'float() of symbolic int inside C code'))

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.e % (o + 1))
        return int(self) & int(o)
    __rand__ = __and__

    def __or__(self, o): return int(self) | int(o)
    __ror__ = __or__
    def __xor__(self, o): return int(self) ^ int(o)
    __rxor__ = __xor__

    def __lshift__(self, o): return self * (2 ** int(o))
    def __rshift__(self, o): return self // (2 ** int(o))
    def __invert__(self): return -self - 1
    def bit_length(self): return int(self).bit_length()
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1


class SReal(SNum):
    """Python float modelled as a mathematical real.

    dec = (SInt/int k, m): value is exactly k / 10**m (used for printing)."""
    __slots__ = ('e', 'dec')

    def __init__(self, e, dec=None):
        self.e = e
        self.dec = dec

    def __float__(self):
        return float(ctx().concretize(self.e, 'float handed to C code', exhaustive=False))

    def __int__(self):
        return int(ctx().concretize(self.e, 'float handed to C code', exhaustive=False))


numbers.Number.register(SNum)
numbers.Real.register(SReal)
numbers.Integral.register(SInt)


def as_float(x):
    if isinstance(x, SReal):
        return x
    if isinstance(x, (SInt, SBool)):
        return SReal(z3.simplify(z3.ToReal(int_e(x))),
                     (x if isinstance(x, SInt) else mkint(int_e(x)), 0))
    return float(x)


def cast(x, t):
    if t is builtins.int or t == np.int64 or t == int or (isinstance(t, type) and issubclass(t, np.integer)):
        return sint(x)
    if t is builtins.float or (isinstance(t, type) and issubclass(t, np.floating)):
        return as_float(x)
    if t is builtins.bool or t is np.bool_:
        return x != 0
    return x


def sint(x):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return mkint(int_e(x))
    if isinstance(x, SReal):
        return mkint(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    raise TypeError


def half_even(e):
    """z3 real -> z3 int rounded half to even."""
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = z3.RealVal('1/2')
    return z3.If(d < half, f, z3.If(d > half, f + 1,
                                    z3.If(f % 2 == 0, f, f + 1)))


def sround(x, n=None):
    if isinstance(x, SBool):
        x = x._i()
    if isinstance(x, SInt):
        if n is None or int(n) >= 0:
            return x
        p = 10 ** (-int(n))
        return mkint(half_even(z3.ToReal(x.e) / p) * p)
    if n is None:
        return mkint(half_even(x.e))
    n = int(n)
    if n >= 0:
        p = 10 ** n
        k = mkint(half_even(x.e * p))
        return mkreal(z3.ToReal(int_e(k)) / p, (k, n))
    p = 10 ** (-n)
    return mkreal(z3.ToReal(half_even(x.e / p)) * p)


def _ok(o):
    return isnum(o) or isinstance(o, (SNum, SBool))


def arith(op, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if op not in '+-*':
            return NotImplemented
        arr = a if isinstance(a, np.ndarray) else b
        out = np.empty(arr.shape, dtype=object)
        for i in np.ndindex(arr.shape):
            out[i] = arith(op, a[i], b) if arr is a else arith(op, a, b[i])
        return out
    if not (_ok(a) and _ok(b)):
        return NotImplemented
    if is_nonfinite(a) or is_nonfinite(b):
        return nonfinite(op, a, b)
    ii = is_intlike(a) and is_intlike(b)
    if op in '+-*':
        if ii:
            x, y = int_e(a), int_e(b)
            return mkint(x + y if op == '+' else x - y if op == '-' else x * y)
        x, y = real_e(a), real_e(b)
        return mkreal(x + y if op == '+' else x - y if op == '-' else x * y)
    # division family
    cb = const_of(b)
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError('division by zero')
    else:
        if ctx().decide(b.e == 0):
            raise ZeroDivisionError('division by zero')
    if op == '/':
        return mkreal(ratfun.canon(real_e(a) / real_e(b)))
    if ii:
        x, y = int_e(a), int_e(b)
        if cb is not None:
            neg = cb < 0
        else:
            neg = ctx().decide(b.e < 0)
        if neg:
            x, y = -x, -y
        q = x / y
        if op == '//':
            return mkint(q)
        r = x % y
        return mkint(-r if neg else r)
    x, y = real_e(a), real_e(b)
    if op == '%':
        from . import trig
        if trig._state['units'] and z3.is_rational_value(y) and z3.is_true(z3.simplify(y > 0)) and trig.linear_form(x) is not None:
            for k in (0, 1, -1):  # angles: keep the result linear
                if core.CUR.decide(z3.And(x >= k * y, x < (k + 1) * y)):
                    return mkreal(z3.simplify(x - k * y))
    q = z3.ToReal(z3.ToInt(x / y))
    if op == '//':
        return mkreal(q)
    return mkreal(x - y * q)


def nonfinite(op, a, b):
    f = a if is_nonfinite(a) else b
    if f != f:
        return math.nan
    # inf
    if op == '+':
        return f
    if op == '-':
        return f if is_nonfinite(a) else -f
    if op == '/':
        if is_nonfinite(b):
            return 0.0
    if op in '*/':
        o = b if is_nonfinite(a) else a
        if o > 0:
            return f
        if o < 0:
            return -f
        return math.nan
    return math.nan


def compare(op, a, b):
    if isinstance(b, np.ndarray):
        out = np.empty(b.shape, dtype=bool)
        for i in np.ndindex(b.shape):
            out[i] = bool(compare(op, a, b[i]))
        return out
    if not _ok(b):
        if op == '==':
            return False if not isinstance(b, Sym) else NotImplemented
        if op == '!=':
            return True if not isinstance(b, Sym) else NotImplemented
        return NotImplemented
    if is_nonfinite(b):
        b = float(b)
        if b != b:
            return op == '!='
        pos = b > 0
        return {'<': pos, '<=': pos, '>': not pos, '>=': not pos,
                '==': False, '!=': True}[op]
    if is_intlike(a) and is_intlike(b):
        x, y = int_e(a), int_e(b)
    else:
        x, y = real_e(a), real_e(b)
    if ratfun.ON[0] and z3.is_real(x) and z3.is_real(y):
        r = ratfun.relation(op, x, y)
        if r is not None:
            return mkbool(r)
    r = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y,
         '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
    return mkbool(r)


def spow(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    if isinstance(b, (SInt, SBool)):
        b = b.__index__()
    cb = const_of(b)
    if cb is None:
        b = float(b)
        cb = frac(b)
    if cb.denominator == 1 and abs(cb) <= 16:
        n = int(cb)
        if not is_sym(a):
            return a ** n
        if n == 0:
            return 1 if is_intlike(a) else 1.0
        r = a
        for _ in range(abs(n) - 1):
            r = r * a
        return r if n > 0 else 1 / r
    if cb == Fraction(1, 2):
        from . import trig
        return trig.sqrt(a)
    if cb == Fraction(-1, 2):
        from . import trig
        return 1 / trig.sqrt(a)
    if cb == Fraction(3, 2):
        from . import trig
        return a * trig.sqrt(a)
    from . import trig
    return trig.upow(a, b)
