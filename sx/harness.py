"""Harness API.  The same harness function runs in two modes:

* symbolic  -- SymInputs: inputs are proxies, `check` is a solver obligation;
* concrete  -- ConcInputs: inputs come from a counterexample / path witness and
  the code under test is the plain, uninstrumented import from /repo.
"""
import importlib
import os
import shutil
import sys
import tempfile
from fractions import Fraction

CONCRETE_STUBS = {}


class Assume(BaseException):
    pass


class Hang(BaseException):
    pass


class CheckFailed(BaseException):
    pass


class Base:
    def mod(self, name):
        importlib.import_module('impactutils')
        return importlib.import_module(name)

    def raises(self, f, *a, **k):
        """(result, exception-or-None) of f(*a); only Exception is caught."""
        try:
            return f(*a, **k), None
        except Exception as e:     # noqa
            return None, e

    def call(self, what, f, *a, **k):
        """f(*a); any exception is a violation"""
        try:
            return f(*a, **k)
        except Exception as e:     # noqa
            if os.environ.get('SX_TB'):
                import traceback
                traceback.print_exc()
            self.fail(f'{what}: raised {type(e).__name__}: {safe(e)}')

    def close(self, a, b, tol=1e-6):
        d = a - b
        return self.all([d <= tol, d >= -tol])


def safe(e):
    try:
        return str(e)[:200]
    except BaseException:     # noqa
        return '?'


# --------------------------------------------------------------------- symbolic
class SymInputs(Base):
    symbolic = True

    def __init__(self, ctx, params):
        import z3
        from . import vals, strs
        self.z3, self.v, self.s = z3, vals, strs
        self.ctx = ctx
        self.p = params
        self.tmp = None

    def _reg(self, name, term):
        if name in self.ctx.inputs:
            raise RuntimeError(f'duplicate input {name}')
        self.ctx.inputs[name] = term

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            self._reg(name, lo)
            return lo
        t = self.z3.Int('in_' + name)
        self._reg(name, t)
        self._bounds(t, lo, hi)
        return self.v.SInt(t)

    def _bounds(self, t, lo, hi):
        cs = []
        if lo is not None:
            cs.append(t >= self.v.real_e(lo) if self.z3.is_real(t) else t >= lo)
        if hi is not None:
            cs.append(t <= self.v.real_e(hi) if self.z3.is_real(t) else t <= hi)
        if cs:
            self.ctx.add(self.z3.And(cs))

    def real(self, name, lo=None, hi=None):
        lo, hi = (Fraction(b) if isinstance(b, str) else b for b in (lo, hi))
        t = self.z3.Real('in_' + name)
        self._reg(name, t)
        self._bounds(t, lo, hi)
        return self.v.SReal(t)

    def dec(self, name, lo, hi, places):
        """a float with at most `places` decimals, lo..hi given as numbers"""
        k = self.z3.Int('in_' + name)
        self._reg(name, k)
        m = 10 ** places
        self.ctx.add(self.z3.And(k >= int(Fraction(str(lo)) * m), k <= int(Fraction(str(hi)) * m)))
        return self.v.SReal(self.z3.ToReal(k) / m, (self.v.SInt(k), places))

    def const(self, x):
        """exact rational constant ('3/5')"""
        return self.v.SReal(self.z3.RealVal(Fraction(x)))

    def bool(self, name):
        t = self.z3.Bool('in_' + name)
        self._reg(name, t)
        return self.v.SBool(t)

    def flag(self, name):
        """bool decided (forked) right away"""
        return bool(self.bool(name))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            self._reg(name, 0)
            return options[0]
        t = self.z3.Int('in_' + name)
        self._reg(name, t)
        self.ctx.add(self.z3.And(t >= 0, t < len(options)))
        lo, hi = 0, len(options) - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if self.ctx.decide(t <= mid):
                hi = mid
            else:
                lo = mid + 1
        return options[lo]

    def string(self, name, minlen, maxlen, alphabet, kind='str'):
        n = self.choice(name + '_len', range(minlen, maxlen + 1))
        cs = []
        for i in range(n):
            t = self.z3.Int(f'in_{name}_{i}')
            rs = ranges(alphabet)
            self.ctx.add(self.z3.Or([self.z3.And(t >= a, t <= b) for a, b in rs]))
            cs.append(t)
        self._reg(name, cs)
        return self.s.mk(cs, self.s.SStr if kind == 'str' else self.s.SBytes)

    def angle(self, name, lo, hi, unit=360.0, rational=False, values=None):
        """real input in degrees with known sine/cosine of angle*pi/unit;
        rational: both are rational functions of the tangent of half the angle
        (every angle strictly between -unit and unit)"""
        from . import trig
        import math
        t = self.z3.Real('in_' + name)
        self._reg(name, t)
        self._bounds(t, lo, hi)
        if rational:
            h = self.z3.Real(f'tan_{name}')
            s, c = 2 * h / (1 + h * h), (1 - h * h) / (1 + h * h)
            self.ctx.add(self.z3.And((h > 0) == (t > 0), (h < 0) == (t < 0)))
            for b in (lo, hi):  # the tangent keeps to the range, outwards by rounding
                b = float(b)
                if abs(b) < unit:
                    k = math.tan(b * math.pi / unit / 2)
                    w = self.z3.RealVal(Fraction(k) * (1 + Fraction(1, 10 ** 15)) if k else 0)
                    self.ctx.add(h >= w if b == float(lo) and b <= 0 else h <= w if b == float(hi) and b >= 0 else self.z3.BoolVal(True))
        elif values:
            s, c = (self.z3.RealVal(Fraction(x)) for x in values)
        else:
            s, c = self.z3.Real(f'sin_{name}'), self.z3.Real(f'cos_{name}')
            self.ctx.add(s * s + c * c == 1)
        self.ctx.angles[name] = (s, c, unit, lo, hi)
        trig.declare_unit(t, math.pi / unit, s, c)
        return self.v.SReal(t), self.v.SReal(s), self.v.SReal(c)

    def sin(self, x):
        from . import trig
        return trig.sin(x)

    def cos(self, x):
        from . import trig
        return trig.cos(x)

    def assume(self, c):
        self.ctx.assume(self.v.bool_e(c))

    def check(self, c, msg):
        self.ctx.prove(self.v.bool_e(c), self._m(msg))

    def _m(self, msg):
        return msg if isinstance(msg, str) else f'property violated ({msg.__code__.co_name} line {msg.__code__.co_firstlineno})'

    def fail(self, msg):
        self.ctx.fail_path(msg)
        from .core import Abort
        raise Abort()

    def all(self, xs):
        return self.v.sand(*xs)

    def any(self, xs):
        return self.v.sor(*xs)

    def no(self, x):
        return self.v.snot(x)

    def implies(self, a, b):
        return self.v.implies(a, b)

    def ite(self, c, a, b):
        return self.v.ite(c, a, b)

    def tofloat(self, x):
        return self.v.as_float(x)

    def str(self, x):
        return self.s.render(x)

    def parse_float(self, x):
        return self.s.parse_float(x) if self.v.is_sym(x) else float(x)

    def parse_int(self, x):
        return self.s.parse_int(x) if self.v.is_sym(x) else int(x)

    def pytype(self, x):
        from . import shims
        return shims.pytype(x)

    def is_sym(self, x):
        return self.v.is_sym(x)

    def reach(self, label):
        st = self.ctx.stats.reached
        st[label] = st.get(label, 0) + 1

    def override(self, f, repl):
        from . import calls
        calls.override(f, repl)

    def stub(self, owner, name, repl):
        """replace library attribute (class/function) seen by the code"""
        self.override(getattr(owner, name), repl)

    def patch(self, owner, name, repl):
        self._patched.append((owner, name, getattr(owner, name)))
        setattr(owner, name, repl)

    def begin(self):
        from . import calls
        importlib.import_module('impactutils')
        calls.clear_overrides()
        self._patched = []

    def end(self):
        for o, n, v in reversed(self._patched):
            setattr(o, n, v)
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def scratch(self):
        if not self.tmp:
            self.tmp = tempfile.mkdtemp(prefix='sxv')
        return self.tmp


def ranges(alphabet):
    cs = sorted(set(ord(c) for c in alphabet))
    out = []
    for c in cs:
        if out and out[-1][1] == c - 1:
            out[-1] = (out[-1][0], c)
        else:
            out.append((c, c))
    return out


# --------------------------------------------------------------------- concrete
class ConcInputs(Base):
    symbolic = False

    def __init__(self, values, params):
        self.vals = values
        self.p = params
        self.failures = []
        self.tmp = None
        self._patched = []

    def _get(self, name, default=0):
        v = self.vals.get(name, default)
        return v

    def int(self, name, lo=None, hi=None):
        d = lo if lo is not None else 0
        return int(self._get(name, d))

    def real(self, name, lo=None, hi=None):
        lo, hi = (float(Fraction(b)) if isinstance(b, str) else b for b in (lo, hi))
        v = self._get(name, lo if lo is not None else 0)
        if isinstance(v, dict):
            v = Fraction(v['q'])
        f = float(v)
        # keep the float inside the stated range
        if lo is not None and f < lo:
            f = float(lo)
        if hi is not None and f > hi:
            f = float(hi)
        return f

    def dec(self, name, lo, hi, places):
        return float(Fraction(int(self._get(name, 0)), 10 ** places))

    def const(self, x):
        return float(Fraction(x))

    def bool(self, name):
        return bool(self._get(name, False))

    flag = bool

    def choice(self, name, options):
        options = list(options)
        i = int(self._get(name, 0))
        return options[min(max(i, 0), len(options) - 1)]

    def string(self, name, minlen, maxlen, alphabet, kind='str'):
        v = self._get(name, [ord(alphabet[0])] * minlen)
        s = ''.join(chr(c) for c in v)
        return s if kind == 'str' else s.encode('latin-1')

    def sin(self, x):
        import math
        return math.sin(x)

    def cos(self, x):
        import math
        return math.cos(x)

    def angle(self, name, lo, hi, unit=360.0, rational=False):
        import math
        v = self.real(name, lo, hi)
        return v, math.sin(math.radians(v) * 180 / unit), math.cos(math.radians(v) * 180 / unit)

    def assume(self, c):
        if not c:
            raise Assume()

    def check(self, c, msg):
        if not c:
            self.failures.append(msg if isinstance(msg, str) else msg())

    def fail(self, msg):
        self.failures.append(msg)
        raise CheckFailed()

    def all(self, xs):
        return all(bool(x) for x in xs)

    def any(self, xs):
        return any(bool(x) for x in xs)

    def no(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def tofloat(self, x):
        return float(x)

    def str(self, x):
        return str(x)

    def parse_float(self, x):
        return float(x)

    def parse_int(self, x):
        return int(x)

    def pytype(self, x):
        return type(x)

    def is_sym(self, x):
        return False

    def reach(self, label):
        pass

    def override(self, f, repl):
        pass

    def stub(self, owner, name, repl):
        """Install a trampoline in the library before the code is imported."""
        key = (id(owner), name)
        if key not in CONCRETE_STUBS:
            orig = getattr(owner, name)
            cell = [None, orig]
            CONCRETE_STUBS[key] = cell

            if isinstance(orig, type) and isinstance(repl, type):
                # must stay usable as a class / in except clauses
                def tramp(*a, **k):
                    return (cell[0] or cell[1])(*a, **k)
            else:
                def tramp(*a, **k):
                    return (cell[0] or cell[1])(*a, **k)
            for m in list(sys.modules.values()):
                if m is None or not getattr(m, '__name__', '').startswith('impactutils'):
                    continue
                for k, v in list(vars(m).items()):
                    if v is orig:
                        setattr(m, k, tramp)
            setattr(owner, name, tramp)
        CONCRETE_STUBS[key][0] = repl

    def patch(self, owner, name, repl):
        self._patched.append((owner, name, getattr(owner, name)))
        setattr(owner, name, repl)

    def begin(self):
        importlib.import_module('impactutils')
        self._patched = []

    def end(self):
        for c in CONCRETE_STUBS.values():
            c[0] = None
        for o, n, v in reversed(self._patched):
            setattr(o, n, v)
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def scratch(self):
        if not self.tmp:
            self.tmp = tempfile.mkdtemp(prefix='sxv')
        return self.tmp


class H:
    """One harness: fn(inp), jobs = list of params dicts per tier."""

    def __init__(self, fn, quick=None, thorough=None, bounds='', name=None,
                 max_paths=20000, timeout_ms=10000, obl_timeout_ms=30000, reach=(),
                 obj_arrays=False, path_s=60, job_s=None):
        self.fn = fn
        self.name = name or fn.__name__
        self.quick = quick if quick is not None else [{}]
        self.thorough = thorough if thorough is not None else self.quick
        self.bounds = bounds
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.obl_timeout_ms = obl_timeout_ms
        self.reach = list(reach)
        self.obj_arrays = obj_arrays
        self.path_s = path_s
        self.job_s = job_s

    def jobs(self, tier):
        return self.quick if tier == 'quick' else self.thorough
