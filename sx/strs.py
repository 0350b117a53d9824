"""Symbolic strings: concrete length per path, symbolic characters.

Each character is a one-character python str or a z3 Int (its code point)."""
import math
from fractions import Fraction

import numpy as np
import z3

from . import core
from .vals import (Sym, SInt, SReal, SBool, SNum, mkbool, mkint, mkreal, bool_e,
                   is_sym, as_float, half_even, sround, int_e, real_e, frac)

WS = ' \t\n\r\x0b\x0c'


def ctx():
    return core.CUR


def code(c):
    return z3.IntVal(ord(c)) if isinstance(c, str) else c


def ceq(a, b):
    """z3 Bool / python bool: two characters equal."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return z3.simplify(code(a) == code(b))


def cin(c, chars):
    if isinstance(c, str):
        return c in chars
    return z3.simplify(z3.Or([c == ord(x) for x in chars])) if chars else False


def crange(c, lo, hi):
    if isinstance(c, str):
        return lo <= c <= hi
    return z3.And(c >= ord(lo), c <= ord(hi))


def dec(b):
    """decide a python bool or z3 Bool"""
    if isinstance(b, bool):
        return b
    return ctx().decide(b)


def conj(bs):
    out = []
    for b in bs:
        if isinstance(b, bool):
            if not b:
                return False
            continue
        if z3.is_false(b):
            return False
        if z3.is_true(b):
            continue
        out.append(b)
    if not out:
        return True
    return z3.And(out)


def chars_of(x):
    if isinstance(x, SStr):
        return x.cs
    if isinstance(x, str):
        return list(x)
    if isinstance(x, (bytes, bytearray)):
        return [chr(b) for b in x]
    raise TypeError(f'expected str, got {type(x)}')


def norm(c):
    if isinstance(c, str):
        return c
    c = z3.simplify(c)
    if z3.is_int_value(c):
        return chr(c.as_long())
    return c


CLASSES = {}


def in_class(c, chars):
    """z3 Bool: code point c is one of chars"""
    ns = sorted({ord(x) for x in chars})
    out, lo, prev = [], ns[0], ns[0]
    for n in ns[1:] + [None]:
        if n is not None and n == prev + 1:
            prev = n
            continue
        out.append(c == lo if lo == prev else z3.And(c >= lo, c <= prev))
        lo = prev = n
    return z3.simplify(z3.Or(out))


def has_sub(cs, ds):
    """one decision: does cs contain ds"""
    if len(ds) == 1 and not isinstance(ds[0], str) and all(isinstance(c, str) for c in cs):
        if not cs:
            return False
        key = (ds[0].get_id(), ''.join(cs))
        hit = CLASSES.get(key)
        if hit is None:
            hit = CLASSES[key] = (ds[0], in_class(ds[0], cs))
        return dec(hit[1])
    alts = []
    for i in range(len(cs) - len(ds) + 1):
        r = conj([ceq(a, b) for a, b in zip(cs[i:i + len(ds)], ds)])
        if r is True:
            return True
        if r is not False:
            alts.append(r)
    return dec(z3.Or(alts)) if alts else False


class SStr(Sym):
    __slots__ = ('cs',)
    kind = str

    def __init__(self, cs):
        self.cs = list(cs)

    # -- construction
    def mk(self, cs):
        return mk(cs, type(self))

    def _coerce(self, o):
        if isinstance(o, SStr):
            return type(o) is type(self)
        return isinstance(o, self.kind)

    def concrete(self, why='string handed to C code'):
        out = []
        for c in self.cs:
            if isinstance(c, str):
                out.append(c)
            else:
                out.append(chr(ctx().concretize(c, why)))
        return ''.join(out)

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return '<S ' + ''.join(c if isinstance(c, str) else '?' for c in self.cs) + '>'

    def __hash__(self):
        return hash(self.concrete('hash of symbolic string'))

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield self.mk([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.mk(self.cs[i])
        if isinstance(i, SInt):
            i = i.__index__()
        return self.mk([self.cs[i]])

    def __add__(self, o):
        if not self._coerce(o):
            return NotImplemented
        return self.mk(self.cs + chars_of(o))

    def __radd__(self, o):
        if not self._coerce(o):
            return NotImplemented
        return self.mk(chars_of(o) + self.cs)

    def __mul__(self, n):
        return self.mk(self.cs * int(n))
    __rmul__ = __mul__

    def eq_e(self, o):
        ocs = chars_of(o)
        if len(ocs) != len(self.cs):
            return False
        return conj([ceq(a, b) for a, b in zip(self.cs, ocs)])

    def __eq__(self, o):
        if not self._coerce(o):
            return False
        r = self.eq_e(o)
        return r if isinstance(r, bool) else mkbool(r)

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, bool):
            return not r
        return mkbool(z3.Not(r.e))

    def _lex(self, o):
        """-1/0/1 by forking."""
        ocs = chars_of(o)
        for a, b in zip(self.cs, ocs):
            if dec(ceq(a, b)):
                continue
            if isinstance(a, str) and isinstance(b, str):
                return -1 if a < b else 1
            return -1 if ctx().decide(code(a) < code(b)) else 1
        return (len(self.cs) > len(ocs)) - (len(self.cs) < len(ocs))

    def __lt__(self, o): return self._lex(o) < 0
    def __le__(self, o): return self._lex(o) <= 0
    def __gt__(self, o): return self._lex(o) > 0
    def __ge__(self, o): return self._lex(o) >= 0

    def __contains__(self, o):
        if isinstance(o, (int, SInt)) and self.kind is bytes:
            for c in self.cs:
                if dec(ceq(c, chr(o))):
                    return True
            return False
        return has_sub(self.cs, chars_of(o))

    # -- searching
    def _at(self, sub, i):
        return conj([ceq(a, b) for a, b in zip(self.cs[i:i + len(sub)], sub)])

    def find(self, sub, start=0, end=None):
        s = chars_of(sub)
        n = len(self.cs)
        start, end, _ = slice(start, end).indices(n)
        for i in range(start, end - len(s) + 1):
            if dec(self._at(s, i)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        s = chars_of(sub)
        n = len(self.cs)
        start, end, _ = slice(start, end).indices(n)
        for i in range(end - len(s), start - 1, -1):
            if dec(self._at(s, i)):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub, *a):
        s = chars_of(sub)
        if not s:
            return len(self.cs) + 1
        n = i = 0
        while i + len(s) <= len(self.cs):
            if dec(self._at(s, i)):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(q, *a) for q in p)
        me = self[slice(*a)] if len(a) == 2 else self[a[0]:] if a else self
        p = chars_of(p)
        cs = chars_of(me)
        if len(p) > len(cs):
            return False
        return dec(conj([ceq(x, y) for x, y in zip(cs, p)]))

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.endswith(q, *a) for q in p)
        p = chars_of(p)
        if len(p) > len(self.cs):
            return False
        if not p:
            return True
        return dec(conj([ceq(x, y) for x, y in zip(self.cs[-len(p):], p)]))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    def replace(self, old, new, count=-1):
        o, w = chars_of(old), chars_of(new)
        out = []
        i = 0
        n = len(self.cs)
        if not o:
            for k, c in enumerate(self.cs):
                if count < 0 or k < count:
                    out += w
                out.append(c)
            if count < 0 or n < count:
                out += w
            return self.mk(out)
        while i < n:
            if count != 0 and i + len(o) <= n and dec(self._at(o, i)):
                out += w
                i += len(o)
                count -= 1
            else:
                out.append(self.cs[i])
                i += 1
        return self.mk(out)

    def split(self, sep=None, maxsplit=-1):
        parts = []
        if sep is None:
            i, n = 0, len(self.cs)
            while True:
                while i < n and dec(cin(self.cs[i], WS)):
                    i += 1
                if i >= n:
                    break
                if maxsplit == 0:
                    parts.append(self.mk(self.cs[i:]).rstrip())
                    break
                j = i
                while j < n and not dec(cin(self.cs[j], WS)):
                    j += 1
                parts.append(self.mk(self.cs[i:j]))
                maxsplit -= 1
                i = j
            return parts
        s = chars_of(sep)
        if not s:
            raise ValueError('empty separator')
        last = i = 0
        n = len(self.cs)
        while i + len(s) <= n:
            if maxsplit != 0 and dec(self._at(s, i)):
                parts.append(self.mk(self.cs[last:i]))
                i += len(s)
                last = i
                maxsplit -= 1
            else:
                i += 1
        parts.append(self.mk(self.cs[last:]))
        return parts

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise NotImplementedError('rsplit whitespace maxsplit')
        parts = []
        rest = self
        while maxsplit > 0:
            i = rest.rfind(sep) if is_sym(rest) else rest.rfind(plain(sep))
            if i < 0:
                break
            parts.insert(0, rest[i + len(sep):])
            rest = rest[:i]
            maxsplit -= 1
        return [rest] + parts

    def splitlines(self, keepends=False):
        out, curr = [], []
        i = 0
        while i < len(self.cs):
            c = self.cs[i]
            if dec(cin(c, '\n\r\x0b\x0c')):
                out.append(self.mk(curr + ([c] if keepends else [])))
                curr = []
                if i + 1 < len(self.cs) and dec(ceq(c, '\r')) and dec(ceq(self.cs[i + 1], '\n')):
                    i += 1
            else:
                curr.append(c)
            i += 1
        if curr:
            out.append(self.mk(curr))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, self.mk([]), self.mk([]))
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return (self.mk([]), self.mk([]), self)
        return (self[:i], sep, self[i + len(sep):])

    def lstrip(self, chars=None):
        cs = WS if chars is None else chars
        i = 0
        while i < len(self.cs) and self._inset(self.cs[i], cs):
            i += 1
        return self.mk(self.cs[i:])

    def rstrip(self, chars=None):
        cs = WS if chars is None else chars
        j = len(self.cs)
        while j > 0 and self._inset(self.cs[j - 1], cs):
            j -= 1
        return self.mk(self.cs[:j])

    @staticmethod
    def _inset(c, cs):
        if isinstance(cs, SStr):
            return dec(z3.Or([code(c) == code(x) for x in cs.cs]))
        if isinstance(cs, bytes):
            cs = cs.decode('latin-1')
        return dec(cin(c, cs))

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if is_sym(r) else r.rstrip(chars)

    def join(self, it):
        return sjoin(self, it)

    def _map(self, f):
        return self.mk([f(c) for c in self.cs])

    def lower(self):
        return self._map(lambda c: c.lower() if isinstance(c, str) else
                         norm(z3.If(z3.And(c >= 65, c <= 90), c + 32, c)))
    casefold = lower

    def upper(self):
        return self._map(lambda c: c.upper() if isinstance(c, str) else
                         norm(z3.If(z3.And(c >= 97, c <= 122), c - 32, c)))

    def _all(self, pred):
        if not self.cs:
            return False
        return dec(conj([pred(c) for c in self.cs]))

    def isdigit(self):
        return self._all(lambda c: c.isdigit() if isinstance(c, str) else crange(c, '0', '9'))
    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(lambda c: c.isalpha() if isinstance(c, str) else
                         z3.Or(crange(c, 'a', 'z'), crange(c, 'A', 'Z')))

    def isalnum(self):
        return self._all(lambda c: c.isalnum() if isinstance(c, str) else
                         z3.Or(crange(c, 'a', 'z'), crange(c, 'A', 'Z'), crange(c, '0', '9')))

    def isspace(self):
        return self._all(lambda c: cin(c, WS))

    def islower(self):
        l = self.lower()
        return bool(self == l) and bool(self != self.upper())

    def isupper(self):
        return bool(self == self.upper()) and bool(self != self.lower())

    def encode(self, *a):
        return mk(self.cs, SBytes)

    def zfill(self, n):
        return self.rjust(n, '0')

    def rjust(self, n, fill=' '):
        return self.mk([fill] * max(0, n - len(self.cs)) + self.cs)

    def ljust(self, n, fill=' '):
        return self.mk(self.cs + [fill] * max(0, n - len(self.cs)))

    def format(self, *a, **k):
        return sformat(str(self), a, k)

    def __mod__(self, args):
        return percent(str(self), args)

    def __format__(self, spec):
        return self.concrete()

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if not hasattr(self.kind, name):
            raise AttributeError(name)
        v = plain(self)
        return getattr(v, name)


class SBytes(SStr):
    __slots__ = ()
    kind = bytes

    def decode(self, *a):
        return mk(self.cs, SStr)

    def __str__(self):
        return str(plain(self))

    def __bytes__(self):
        return plain(self)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.mk(self.cs[i])
        c = self.cs[i]
        return ord(c) if isinstance(c, str) else mkint(c)

    def __iter__(self):
        for c in self.cs:
            yield ord(c) if isinstance(c, str) else mkint(c)


def mk(cs, cls=SStr):
    cs = [norm(c) for c in cs]
    if all(isinstance(c, str) for c in cs):
        s = ''.join(cs)
        return s if cls is SStr else s.encode('latin-1')
    return cls(cs)


def plain(s):
    """concrete python value of a (symbolic) string"""
    if isinstance(s, SBytes):
        return s.concrete().encode('latin-1')
    if isinstance(s, SStr):
        return s.concrete()
    return s


def sjoin(sep, it):
    it = list(it)
    out = []
    cls = SStr
    for i, x in enumerate(it):
        if isinstance(x, (SBytes, bytes)):
            cls = SBytes
        elif not isinstance(x, (SStr, str)):
            raise TypeError(f'sequence item {i}: expected str instance, {type(x).__name__} found')
        if i:
            out += chars_of(sep)
        out += chars_of(x)
    if not it and isinstance(sep, (SBytes, bytes)):
        cls = SBytes
    return mk(out, cls)


# ---------------------------------------------------------------- rendering
def digits_of(v, width=None):
    """v: nonneg SInt -> list of chars (no sign); forks on the length."""
    if isinstance(v, int):
        s = str(v)
        if width:
            s = s.zfill(width)
        return list(s)
    memo = ctx().memo
    mk_ = ('digits', z3.simplify(v.e).sexpr())
    if mk_ in memo:
        ds = memo[mk_]
        return ['0'] * (max(len(ds), width or 1) - len(ds)) + [d + 48 for d in ds]
    n = 1
    while n < 40:
        if ctx().decide(v.e < 10 ** n):
            break
        n += 1
    w = max(n, width or 1)
    ds = memo[mk_] = [ctx().fresh('dg') for _ in range(n)]
    for d in ds:
        ctx().add(z3.And(d >= 0, d <= 9))
    ctx().add(v.e == z3.Sum([d * 10 ** (n - 1 - i) for i, d in enumerate(ds)]))
    # redundant but helps the simplifier: leading digit nonzero
    if n > 1:
        ctx().add(ds[0] >= 1)
    return ['0'] * (w - n) + [d + 48 for d in ds]


def split_sign(v):
    if isinstance(v, (SInt, SReal)):
        if ctx().decide(v.e < 0):
            return '-', -v
        return '', v
    return ('-', -v) if v < 0 else ('', v)


def sstr(x):
    """str(x) for a symbolic x."""
    if isinstance(x, SStr):
        if isinstance(x, SBytes):
            return str(plain(x))
        return x
    if isinstance(x, SBool):
        return 'True' if x else 'False'
    if isinstance(x, SInt):
        sg, v = split_sign(x)
        return mk(list(sg) + digits_of(v))
    if isinstance(x, SReal):
        return repr_float(x)
    return str(x)


def repr_float(x):
    """repr of a float known exactly as k/10**m (fewer than 16 digits)."""
    c = z3.simplify(x.e)
    if z3.is_rational_value(c):
        return repr(float(Fraction(c.numerator_as_long(), c.denominator_as_long())))
    if x.dec is None:
        return repr(float(x))     # concretises (recorded)
    k, m = x.dec
    if isinstance(k, int):
        return repr(float(Fraction(k, 10 ** m)))
    sg, k = split_sign(k)
    if m <= 0:
        ip = digits_of(k * 10 ** (-m))
        if len(ip) > 16:
            return repr(float(x))
        return mk(list(sg) + ip + ['.', '0'])
    cs = digits_of(k, m + 1)
    ip, fp = cs[:-m], cs[-m:]
    while len(fp) > 1 and dec(ceq(fp[-1], '0')):
        fp = fp[:-1]
    # exponent form below 1e-4
    if len(fp) > 4 and all(c == '0' for c in ip):
        if dec(conj([ceq(c, '0') for c in fp[:4]])):
            return repr(float(x))
    return mk(list(sg) + ip + ['.'] + fp)


def fixed(x, prec):
    """'%.{prec}f' % x"""
    x = as_float(x)
    k = mkint(half_even(real_e(x) * 10 ** prec))
    neg = ctx().decide(real_e(x) < 0)
    k = -k if neg else k
    cs = digits_of(k, prec + 1)
    sg = ['-'] if neg else []
    if prec == 0:
        return sg + cs
    return sg + cs[:-prec] + ['.'] + cs[-prec:]


def expo(x, prec):
    """'%.{prec}e' % x"""
    x = as_float(x)
    if ctx().decide(real_e(x) == 0):
        return list('0' + ('.' + '0' * prec if prec else '') + 'e+00')
    neg = ctx().decide(real_e(x) < 0)
    v = -real_e(x) if neg else real_e(x)
    e = 0
    if ctx().decide(v >= 1):
        while not ctx().decide(v < z3.RealVal(10 ** (e + 1))):
            e += 1
            if e > 30:
                raise core.Abort('exponent out of bounds')
    else:
        e = -1
        while not ctx().decide(v >= z3.RealVal(Fraction(1, 10 ** (-e)))):
            e -= 1
            if e < -30:
                raise core.Abort('exponent out of bounds')
    sc = Fraction(10) ** (prec - e)
    k = mkint(half_even(v * z3.RealVal(sc)))
    if dec(bool_e(k >= 10 ** (prec + 1))):
        e += 1
        k = 10 ** prec
    cs = digits_of(k, prec + 1)
    out = (['-'] if neg else []) + cs[:1] + (['.'] + cs[1:] if prec else [])
    return out + list('e%s%02d' % ('-' if e < 0 else '+', abs(e)))


def pad(cs, spec, numeric):
    if not spec['width']:
        return cs
    n = spec['width'] - len(cs)
    if n <= 0:
        return cs
    fill = spec['fill'] or ' '
    al = spec['align'] or ('>' if numeric else '<')
    if al == '=':
        if cs and cs[0] in ('-', '+'):
            return [cs[0]] + [fill] * n + cs[1:]
        return [fill] * n + cs
    if al == '>':
        return [fill] * n + cs
    if al == '<':
        return cs + [fill] * n
    l = n // 2
    return [fill] * l + cs + [fill] * (n - l)


def parse_spec(spec):
    r = dict(fill=None, align=None, sign='-', alt=False, zero=False, width=0,
             comma=False, prec=None, type='')
    i = 0
    if len(spec) >= 2 and spec[1] in '<>=^':
        r['fill'], r['align'] = spec[0], spec[1]
        i = 2
    elif spec and spec[0] in '<>=^':
        r['align'] = spec[0]
        i = 1
    if i < len(spec) and spec[i] in '+- ':
        r['sign'] = spec[i]
        i += 1
    if i < len(spec) and spec[i] == '#':
        r['alt'] = True
        i += 1
    if i < len(spec) and spec[i] == '0':
        r['zero'] = True
        if r['align'] is None:
            r['fill'], r['align'] = '0', '='
        i += 1
    j = i
    while j < len(spec) and spec[j].isdigit():
        j += 1
    if j > i:
        r['width'] = int(spec[i:j])
    i = j
    if i < len(spec) and spec[i] in ',_':
        r['comma'] = spec[i]
        i += 1
    if i < len(spec) and spec[i] == '.':
        j = i + 1
        while j < len(spec) and spec[j].isdigit():
            j += 1
        r['prec'] = int(spec[i + 1:j])
        i = j
    r['type'] = spec[i:]
    return r


def hex_digits(v, base):
    if not isinstance(v, SInt):
        return list(format(v, 'x' if base == 87 else 'X'))
    n = 1
    while core.CUR.decide(v.e >= 16 ** n):
        n += 1
    out = []
    for i in reversed(range(n)):
        d = (v.e / 16 ** i) % 16
        out.append(z3.If(d < 10, 48 + d, base + d))
    return out


def fmt_value(x, spec):
    """format(x, spec) for symbolic x."""
    spec = plain(spec)
    if spec == '':
        return sstr(x)
    p = parse_spec(spec)
    t = p['type']
    if isinstance(x, SStr):
        cs = list(x.cs)
        if p['prec'] is not None:
            cs = cs[:p['prec']]
        return mk(pad(cs, p, False))
    if isinstance(x, SBool):
        if t in ('', 's'):
            return format(bool(x), spec)
        x = x._i()
    if isinstance(x, SInt) and t in ('', 'd', 'n', 'i'):
        sg, v = split_sign(x)
        cs = digits_of(v)
        if p['comma']:
            out = []
            for i, c in enumerate(cs):
                if i and (len(cs) - i) % 3 == 0:
                    out.append(p['comma'])
                out.append(c)
            cs = out
        if not sg and p['sign'] in '+ ':
            sg = p['sign']
        return mk(pad(list(sg) + cs, p, True))
    if isinstance(x, SInt) and t in ('x', 'X'):
        sg, v = split_sign(x)
        cs = hex_digits(v, 87 if t == 'x' else 55)
        if not sg and p['sign'] in '+ ':
            sg = p['sign']
        return mk(pad(list(sg) + cs, p, True))
    if t == 'd':
        raise ValueError("Unknown format code 'd' for object of type 'float'")
    if t in ('f', 'F'):
        cs = fixed(x, 6 if p['prec'] is None else p['prec'])
    elif t in ('e', 'E'):
        cs = expo(x, 6 if p['prec'] is None else p['prec'])
    elif t == '%':
        cs = fixed(as_float(x) * 100, 6 if p['prec'] is None else p['prec']) + ['%']
    else:
        return format(float(x), spec)
    if p['comma']:
        neg = cs[0] == '-'
        body = cs[1:] if neg else cs
        dot = body.index('.') if '.' in [c for c in body if isinstance(c, str)] else len(body)
        ip = body[:dot]
        out = []
        for i, c in enumerate(ip):
            if i and (len(ip) - i) % 3 == 0:
                out.append(p['comma'])
            out.append(c)
        cs = (['-'] if neg else []) + out + body[dot:]
    if p['sign'] in '+ ' and cs[0] != '-':
        cs = [p['sign']] + cs
    return mk(pad(cs, p, True))


def has_sym(x, depth=2):
    if is_sym(x):
        return True
    if depth <= 0:
        return False
    if isinstance(x, (list, tuple, set)):
        return any(has_sym(y, depth - 1) for y in x)
    if isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(is_sym(y) for y in x.flat)
    return False


def render(x):
    """str(x) that understands containers of symbolic values."""
    if is_sym(x):
        return sstr(x)
    return str(x)


def sformat(fmt, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out += list(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        obj, _ = string.Formatter().get_field(field, args, kw)
        if spec and '{' in spec:
            spec = plain(sformat(spec, args, kw))
        out += chars_of(fpart(obj, ord(conv) if conv else -1, spec or ''))
    return mk(out)


def fpart(v, conv, spec):
    if conv == ord('s'):
        v = render(v)
    elif conv == ord('r'):
        v = repr(plain(v)) if isinstance(v, SStr) else repr(v)
    if is_sym(v):
        return fmt_value(v, spec)
    if is_sym(spec):
        spec = plain(spec)
    return format(v, spec)


def fstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out += list(p)
        else:
            out += chars_of(fpart(*p))
    return mk(out)


def percent(fmt, args):
    """fmt % args with symbolic args; fmt concrete str/bytes."""
    import re
    isb = isinstance(fmt, bytes)
    f = fmt.decode('latin-1') if isb else fmt
    mapping = args if isinstance(args, dict) else None
    seq = args if isinstance(args, tuple) else (args,)
    pos = 0
    out = []
    last = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\d+))?[hlL]?([diouxXeEfFgGcrsa%])', f):
        out += list(f[last:m.start()])
        last = m.end()
        key, flags, width, prec, t = m.groups()
        if t == '%':
            out.append('%')
            continue
        if key is not None:
            v = mapping[key]
        else:
            if pos >= len(seq):
                raise TypeError('not enough arguments for format string')
            v = seq[pos]
            pos += 1
        if not is_sym(v):
            conc = '%' + flags + (width or '') + ('.' + prec if prec else '') + t
            if isb:
                out += chars_of((conc.encode('latin-1')) % (v,))
            else:
                out += list(conc % (v,))
            continue
        sp = dict(fill=None, align=None, width=int(width or 0))
        if '-' in flags:
            sp['align'] = '<'
        elif '0' in flags and t not in 'sr':
            sp['fill'], sp['align'] = '0', '='
        if t in 'di' or t == 'u':
            if isinstance(v, SReal):
                from .vals import sint
                v = sint(v)
            if isinstance(v, SStr):
                raise TypeError('%d format: a real number is required, not str')
            sg, w = split_sign(v)
            cs = list(sg) + digits_of(w)
            if '+' in flags and not sg:
                cs = ['+'] + cs
            out += pad(cs, sp, True)
        elif t in 'fF':
            cs = fixed(v, 6 if prec is None else int(prec))
            if '+' in flags and cs[0] != '-':
                cs = ['+'] + cs
            out += pad(cs, sp, True)
        elif t in 'eE':
            out += pad(expo(v, 6 if prec is None else int(prec)), sp, True)
        elif t in 'sa' or t == 'r':
            cs = chars_of(sstr(v) if not isinstance(v, SBytes) else v)
            if t == 'r':
                cs = list(repr(plain(v)))
            if prec is not None:
                cs = cs[:int(prec)]
            sp['align'] = '<' if '-' in flags else '>'
            out += pad(cs, sp, False)
        else:
            out += list(('%' + flags + (width or '') + ('.' + prec if prec else '') + t) %
                        (plain(v) if isinstance(v, SStr) else float(v),))
    if mapping is None and pos < len(seq):
        raise TypeError('not all arguments converted during string formatting')
    out += list(f[last:])
    return mk(out, SBytes if isb else SStr)


# ---------------------------------------------------------------- parsing
def digit_val(c):
    return int(c) if isinstance(c, str) else mkint(c - 48)


def is_digit(c):
    return c.isdigit() if isinstance(c, str) else z3.And(c >= 48, c <= 57)


def parse_int(s):
    s = s.strip()
    cs = chars_of(s)
    i, neg = 0, False
    if cs and dec(cin(cs[0], '+-')):
        neg = dec(ceq(cs[0], '-'))
        i = 1
    if i >= len(cs):
        raise ValueError('invalid literal for int()')
    v = 0
    for j, c in enumerate(cs[i:]):
        if not dec(is_digit(c)):
            if j and dec(ceq(c, '_')):
                raise ValueError('underscore in literal (outside the model)')
            raise ValueError('invalid literal for int()')
        v = v * 10 + digit_val(c)
    return -v if neg else v


def parse_float(s):
    s = s.strip()
    cs = chars_of(s)
    i, neg = 0, False
    if cs and dec(cin(cs[0], '+-')):
        neg = dec(ceq(cs[0], '-'))
        i = 1
    k, m, nd = 0, 0, 0
    seen = False
    while i < len(cs):
        c = cs[i]
        if dec(is_digit(c)):
            k = k * 10 + digit_val(c)
            nd += 1
            if seen:
                m += 1
        elif not seen and dec(ceq(c, '.')):
            seen = True
        else:
            break
        i += 1
    if i < len(cs):
        if nd and dec(cin(cs[i], 'eE')):
            ex = parse_int(mk(cs[i + 1:])) if i + 1 < len(cs) else None
            if ex is None:
                raise ValueError('could not convert string to float')
            m -= ex.__index__()
        else:
            word = mk(cs[i:])
            if is_sym(word):
                low = word.lower()
                for w in ('inf', 'infinity', 'nan'):
                    if nd == 0 and not seen and bool(low == w):
                        return -float(w) if neg else float(w)
            elif nd == 0 and not seen:
                return float(('-' if neg else '') + word)
            raise ValueError('could not convert string to float')
    elif nd == 0:
        raise ValueError('could not convert string to float')
    if neg:
        k = -k
    if isinstance(k, int):
        return float(Fraction(k) / Fraction(10) ** m) if k or not neg else -0.0
    if m < 0:
        k, m = k * 10 ** (-m), 0
    return mkreal(z3.ToReal(int_e(k)) / (10 ** m), (k, m))
