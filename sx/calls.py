"""Call-site dispatch for instrumented code."""
import builtins
import datetime
import math
import os
import posixpath
import re
import types

import numpy as np
import z3

from . import core, strs, trig
from .vals import (Sym, SInt, SReal, SBool, SNum, is_sym, as_float, sint, mkbool,
                   bool_e, sround)
from .strs import SStr, SBytes, has_sym, mk, plain

OBJ = [False]    # harness uses object arrays throughout
TABLE = {}       # id(function) -> (function, shim, always)
OVERRIDES = {}   # id(function) -> (function, replacement)   (per harness run)


def setup():
    if TABLE:
        return
    from . import shims
    shims.register()


def reg(f, shim, always=False):
    TABLE[id(f)] = (f, shim, always)


def override(f, repl):
    OVERRIDES[id(f)] = (f, repl)


def clear_overrides():
    OVERRIDES.clear()


BMT = types.BuiltinMethodType


def any_sym(args, kw, depth=3):
    for a in args:
        if has_sym(a, depth):
            return True
        if OBJ[0] and isinstance(a, np.ndarray) and a.dtype == object:
            return True
    for a in kw.values():
        if has_sym(a, depth):
            return True
    return False


def call(f, *args, **kw):
    if OVERRIDES:
        o = OVERRIDES.get(id(f))
        if o is not None and o[0] is f:
            return o[1](*args, **kw)
    t = TABLE.get(id(f))
    if t is not None and t[0] is f:
        if t[2] or any_sym(args, kw):
            return t[1](*args, **kw)
        return f(*args, **kw)
    if isinstance(f, BMT):
        s = f.__self__
        ts = type(s)
        if ts is str or ts is bytes:
            if f.__name__ == 'join' and args and hasattr(args[0], '__next__'):
                args = (list(args[0]),) + args[1:]
            if any_sym(args, kw):
                return str_method(s, f.__name__, args, kw)
        elif ts is dict or isinstance(s, dict):
            if args and is_sym(args[0]):
                return dict_method(s, f, f.__name__, args, kw)
        elif ts is re.Pattern:
            if any_sym(args, kw):
                from . import rex
                return rex.method(s, f.__name__, args, kw)
            if f.__name__ in ('sub', 'subn') and args and callable(args[0]):
                return concrete_sub(s, f.__name__, *args, **kw)
        elif s is datetime.datetime and f.__name__ in ('utcfromtimestamp', 'fromtimestamp'):
            if any_sym(args, {}):
                from . import symtime
                return symtime.from_timestamp(*args, **kw)
        elif ts is list or ts is tuple:
            if args and f.__name__ in ('index', 'count', 'remove') and has_sym(args[0]) or \
                    f.__name__ in ('index', 'count', 'remove') and has_sym(s):
                return list_method(s, f, f.__name__, args)
    return f(*args, **kw)


def concrete_sub(pat, name, repl, string, count=0):
    """re.sub on a plain string whose callback may return a symbolic string"""
    out, pos, n = [], 0, 0
    for m in pat.finditer(string):
        if count and n >= count:
            break
        out.append(string[pos:m.start()])
        out.append(repl(m))
        pos = m.end()
        n += 1
    out.append(string[pos:])
    r = strs.sjoin('' if isinstance(string, str) else b'', out) if has_sym(out) else ''.join(out)
    return r if name == 'sub' else (r, n)


def lift(s):
    """plain str/bytes as symbolic-string object (all chars concrete)"""
    if isinstance(s, bytes):
        return SBytes([chr(b) for b in s])
    return SStr(list(s))


def str_method(s, name, args, kw):
    if name == 'join':
        return strs.sjoin(s, args[0])
    if name == 'format':
        return strs.sformat(s, args, kw)
    if name == 'format_map':
        return strs.sformat(s, (), args[0])
    m = getattr(SStr, name, None)
    if m is None:
        return getattr(s, name)(*[plain(a) for a in args])
    args = [a.__index__() if isinstance(a, SInt) else a for a in args]
    return getattr(lift(s), name)(*args, **kw)


def find_key(d, k):
    """the key of d equal to symbolic k (forks), or None-marker"""
    for kk in list(d.keys()):
        r = (k == kk)
        if r is NotImplemented:
            continue
        if r:
            return True, kk
    return False, None


def dict_method(d, f, name, args, kw):
    if name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__'):
        ok, kk = find_key(d, args[0])
        if ok:
            return getattr(d, name)(kk, *args[1:])
        if name == 'get':
            return args[1] if len(args) > 1 else None
        if name == 'pop':
            if len(args) > 1:
                return args[1]
            raise KeyError(str(args[0]))
        if name == '__contains__':
            return False
        if name == '__getitem__':
            raise KeyError(str(args[0]))
        k = args[0]
        k = plain(k) if isinstance(k, SStr) else k
        return d.setdefault(k, *args[1:])
    return f(*args, **kw)


def list_method(s, f, name, args):
    x = args[0]
    if name == 'index':
        for i, y in enumerate(s):
            if x is y or x == y:
                return i
        raise ValueError('not in list')
    if name == 'count':
        return sum(1 for y in s if x is y or x == y)
    for i, y in enumerate(s):
        if x is y or x == y:
            del s[i]
            return
    raise ValueError('list.remove(x): x not in list')


def fstr(parts):
    if any(not isinstance(p, str) and (has_sym(p[0]) or is_sym(p[2])) for p in parts):
        return strs.fstr(parts)
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            v, conv, spec = p
            if conv == 115:
                v = str(v)
            elif conv == 114:
                v = repr(v)
            elif conv == 97:
                v = ascii(v)
            out.append(format(v, spec))
    return ''.join(out)


def any_eq(a, ys):
    out = []
    for y in ys:
        r = (a == y)
        if r is True:
            return True
        if isinstance(r, SBool):
            out.append(r.e)
    return strs.dec(z3.Or(out)) if out else False


def contains(a, b):
    if is_sym(a):
        if isinstance(b, (str, bytes)):
            return strs.has_sub(lift(b).cs, strs.chars_of(a))
        if isinstance(b, dict):
            return find_key(b, a)[0]
        if isinstance(b, (set, frozenset, type({}.keys()))):
            return any_eq(a, sorted(b, key=repr))
        if isinstance(b, (list, tuple)) and isinstance(a, SStr):
            return any_eq(a, b)
        if isinstance(b, range):
            if isinstance(a, (SInt, SReal)):
                if b.step == 1:
                    r = (a >= b.start) & (a < b.stop)
                    if isinstance(a, SReal):
                        r = r & a.is_integer()
                    return bool(r)
            return any(bool(a == y) for y in b)
    return a in b


def mod(a, b):
    if isinstance(a, (str, bytes)):
        if has_sym(b, 3):
            return strs.percent(a, b)
    return a % b


def div(a, b):
    """division; of object arrays like numpy divides floats"""
    if OBJ[0] and (isinstance(a, np.ndarray) and a.dtype == object or isinstance(b, np.ndarray) and b.dtype == object):
        from . import shims
        return shims.elementwise2(array_div)(a, b)
    return a / b


def array_div(a, b):
    if is_sym(b) and bool(b == 0) or not is_sym(b) and b == 0:
        if not is_sym(a) and a != a or bool(a == 0):
            return float('nan')
        return float('inf') if a > 0 else float('-inf')
    return a / b


def getitem(o, i):
    if is_sym(i):
        if isinstance(o, dict):
            ok, kk = find_key(o, i)
            if ok:
                return o[kk]
            if hasattr(o, '__missing__'):
                return o[plain(i) if isinstance(i, SStr) else i]
            raise KeyError(repr(i))
        if isinstance(i, SInt) and isinstance(o, (list, tuple, str, bytes)):
            n = len(o)
            if core.CUR.decide(z3.Or(i.e < -n, i.e >= n)):
                raise IndexError('index out of range')
            return o[i.__index__()]
    return o[i]


def setitem(v, o, i):
    """o[i] = v; a one-element array goes into an array of numbers as its element"""
    if (isinstance(v, np.ndarray) and v.size == 1 and isinstance(o, np.ndarray) and o.dtype == object and o.ndim == 1
            and isinstance(i, (int, np.integer))):
        v = v.reshape(-1)[0]
    o[i] = v
