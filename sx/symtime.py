"""Symbolic stand-ins for datetime.timedelta / datetime.datetime."""
import datetime as _dt

import z3

from . import core, strs
from .vals import Sym, SInt, SReal, SBool, mkint, is_sym, as_float, sround, sint
from .strs import SStr, mk, chars_of, digits_of

US = 1000000
DAY = 86400 * US


def us_of(td):
    if isinstance(td, SDelta):
        return td.us
    return (td.days * 86400 + td.seconds) * US + td.microseconds


class SDelta(Sym):
    __slots__ = ('us',)
    _pytype = _dt.timedelta

    def __init__(self, us):
        self.us = us

    @property
    def days(self): return self.us // DAY
    @property
    def seconds(self): return (self.us // US) % 86400
    @property
    def microseconds(self): return self.us % US

    def total_seconds(self): return as_float(self.us) / US

    def _b(self, o): return isinstance(o, (SDelta, _dt.timedelta))
    def __add__(self, o):
        if isinstance(o, (STime, _dt.datetime)):
            return STime(STime.of(o) + self.us)
        return SDelta(self.us + us_of(o)) if self._b(o) else NotImplemented
    __radd__ = __add__
    def __sub__(self, o): return SDelta(self.us - us_of(o)) if self._b(o) else NotImplemented
    def __rsub__(self, o):
        if isinstance(o, (STime, _dt.datetime)):
            return STime(STime.of(o) - self.us)
        return SDelta(us_of(o) - self.us) if self._b(o) else NotImplemented
    def __neg__(self): return SDelta(-self.us)
    def __abs__(self): return SDelta(abs(self.us))
    def __mul__(self, n): return SDelta(self.us * n) if isinstance(n, (int, SInt)) else NotImplemented
    __rmul__ = __mul__
    def __floordiv__(self, o):
        return self.us // us_of(o) if self._b(o) else SDelta(self.us // o)
    def __truediv__(self, o):
        return as_float(self.us) / us_of(o) if self._b(o) else SDelta(sround(as_float(self.us) / o))
    def __mod__(self, o): return SDelta(self.us % us_of(o))
    def __divmod__(self, o): return (self // o, self % o)
    def __lt__(self, o): return self.us < us_of(o)
    def __le__(self, o): return self.us <= us_of(o)
    def __gt__(self, o): return self.us > us_of(o)
    def __ge__(self, o): return self.us >= us_of(o)
    def __eq__(self, o): return self.us == us_of(o) if self._b(o) else False
    def __ne__(self, o): return self.us != us_of(o) if self._b(o) else True
    def __bool__(self): return bool(self.us != 0)
    def __hash__(self): return hash(self.us)


def mkdelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    us = (days * DAY + seconds * US + microseconds + milliseconds * 1000 + minutes * 60 * US +
          hours * 3600 * US + weeks * 7 * DAY)
    if isinstance(us, SReal):
        us = sround(us)
    return SDelta(us) if is_sym(us) else _dt.timedelta(microseconds=int(us))


class STime(Sym):
    """datetime known as microseconds since 0001-01-01T00:00:00"""
    __slots__ = ('us',)
    _pytype = _dt.datetime
    tzinfo = None

    def __init__(self, us):
        self.us = us

    @staticmethod
    def of(d):
        if isinstance(d, STime):
            return d.us
        return us_of(d - _dt.datetime(1, 1, 1))

    def _b(self, o): return isinstance(o, (STime, _dt.datetime))

    def __sub__(self, o):
        if self._b(o):
            return SDelta(self.us - STime.of(o))
        if isinstance(o, (SDelta, _dt.timedelta)):
            return STime(self.us - us_of(o))
        return NotImplemented

    def __rsub__(self, o): return SDelta(STime.of(o) - self.us)

    def __add__(self, o):
        return STime(self.us + us_of(o)) if isinstance(o, (SDelta, _dt.timedelta)) else NotImplemented
    __radd__ = __add__
    def __lt__(self, o): return self.us < STime.of(o)
    def __le__(self, o): return self.us <= STime.of(o)
    def __gt__(self, o): return self.us > STime.of(o)
    def __ge__(self, o): return self.us >= STime.of(o)
    def __eq__(self, o): return self.us == STime.of(o) if self._b(o) else False
    def __ne__(self, o): return self.us != STime.of(o) if self._b(o) else True
    def __hash__(self): return hash(self.us)

    @property
    def microsecond(self): return self.us % US
    @property
    def second(self): return (self.us // US) % 60
    @property
    def minute(self): return (self.us // (60 * US)) % 60
    @property
    def hour(self): return (self.us // (3600 * US)) % 24

    def toordinal(self): return self.us // DAY + 1
    def timestamp(self):
        return as_float(self.us - STime.of(_dt.datetime(1970, 1, 1))) / US

    def replace(self, **kw):
        us = self.us
        for k, m, n in (('microsecond', 1, US), ('second', US, 60), ('minute', 60 * US, 60), ('hour', 3600 * US, 24)):
            if k in kw:
                us = us + (kw.pop(k) - getattr(self, k)) * m
        kw.pop('tzinfo', None)
        if kw:
            raise NotImplementedError(str(kw))
        return STime(us)


def from_timestamp(x, tz=None):
    """datetime.utcfromtimestamp: UTC, to the microsecond"""
    us = x * US
    if not isinstance(us, SInt):
        us = sround(us)
    return STime(us + STime.of(_dt.datetime(1970, 1, 1)))


# ------------------------------------------------- calendar (proleptic Gregorian)
DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August',
          'September', 'October', 'November', 'December']


def leap(y):
    return bool(y % 4 == 0) and (bool(y % 100 != 0) or bool(y % 400 == 0))


def days_before(y):
    p = y - 1
    return p * 365 + p // 4 - p // 100 + p // 400


def yday(y, m, d):
    """1-based day of year; m concrete"""
    return CUM[m - 1] + d + (1 if m > 2 and leap(y) else 0)


class FakeDatetime:
    """datetime.datetime with symbolic year/day (month and time fields too)."""
    _pytype = None

    def __init__(self, year, month=1, day=1, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        if is_sym(month):
            month = month.__index__()
        if not (1 <= year) or not (year <= 9999):
            raise ValueError('year is out of range')
        if not 1 <= month <= 12:
            raise ValueError('month must be in 1..12')
        n = DIM[month - 1]
        if not (1 <= day) or not (day <= n):
            if not (month == 2 and day == 29 and leap(year)):
                raise ValueError('day is out of range for month')
        for v, top, what in ((hour, 23, 'hour'), (minute, 59, 'minute'), (second, 59, 'second'), (microsecond, 999999, 'microsecond')):
            if not (v >= 0) or not (v <= top):
                raise ValueError(f'{what} must be in 0..{top}')
        self.year, self.month, self.day = year, month, day
        self.hour, self.minute, self.second, self.microsecond = hour, minute, second, microsecond
        self.tzinfo = tzinfo

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None,
                microsecond=None, tzinfo=None, fold=0):
        pick = lambda a, b: b if a is None else a
        return type(self)(pick(year, self.year), pick(month, self.month), pick(day, self.day),
                          pick(hour, self.hour), pick(minute, self.minute), pick(second, self.second),
                          pick(microsecond, self.microsecond))

    def toordinal(self):
        return days_before(self.year) + yday(self.year, self.month, self.day)

    def weekday(self):
        return (self.toordinal() + 6) % 7

    def isoweekday(self):
        return self.weekday() + 1

    def timetuple(self):
        raise NotImplementedError

    def strftime(self, fmt):
        cs = chars_of(fmt)
        out = []
        i = 0
        while i < len(cs):
            c = cs[i]
            if not strs.dec(strs.ceq(c, '%')):
                out.append(c)
                i += 1
                continue
            if i + 1 >= len(cs):
                out.append('%')
                break
            d = strs.plain(mk([cs[i + 1]]))
            i += 2
            out += self.directive(d)
        return mk(out)

    WIDTH = {'Y': (4, 4), 'm': (1, 2), 'd': (1, 2), 'H': (1, 2), 'M': (1, 2), 'S': (1, 2), 'f': (1, 6)}
    RANGE = {'m': (1, 12), 'd': (1, 31), 'H': (0, 23), 'M': (0, 59), 'S': (0, 61)}

    @classmethod
    def strptime(cls, text, fmt):
        """digit fields only"""
        cs = chars_of(text)
        err = ValueError('time data does not match format')

        def digit(c):
            return strs.dec(strs.is_digit(c))

        def match(f, i):
            if not f:
                if i != len(cs):
                    raise err
                return {}
            if f[0] != '%':
                if i < len(cs) and strs.dec(strs.ceq(cs[i], f[0])):
                    return match(f[1:], i + 1)
                raise err
            k = f[1]
            if k == '%':
                return _lit(f, i)
            lo, hi = cls.WIDTH[k]
            n = 0
            while n < hi and i + n < len(cs) and digit(cs[i + n]):
                n += 1
            for w in range(n, lo - 1, -1):
                v = 0
                for c in cs[i:i + w]:
                    v = v * 10 + strs.digit_val(c)
                if k in cls.RANGE and not (v >= cls.RANGE[k][0] and v <= cls.RANGE[k][1]):
                    continue
                try:
                    r = match(f[2:], i + w)
                except ValueError:
                    continue
                r[k] = v * 10 ** (6 - w) if k == 'f' else v
                return r
            raise err

        def _lit(f, i):
            if i < len(cs) and strs.dec(strs.ceq(cs[i], '%')):
                return match(f[2:], i + 1)
            raise err
        r = match(strs.plain(fmt), 0)
        if is_sym(r.get('S', 0)) or r.get('S', 0) > 59:
            if r['S'] > 59:
                raise ValueError('second must be in 0..59')
        return cls(r.get('Y', 1900), r.get('m', 1), r.get('d', 1), r.get('H', 0), r.get('M', 0), r.get('S', 0), r.get('f', 0))

    def _n(self, v, w):
        return digits_of(v, w)

    def directive(self, d):
        if d == '%':
            return ['%']
        if d == 'Y':
            return digits_of(self.year)
        if d == 'y':
            return self._n(self.year % 100, 2)
        if d == 'm':
            return self._n(self.month, 2)
        if d == 'd':
            return self._n(self.day, 2)
        if d == 'H':
            return self._n(self.hour, 2)
        if d == 'M':
            return self._n(self.minute, 2)
        if d == 'S':
            return self._n(self.second, 2)
        if d == 'f':
            return self._n(self.microsecond, 6)
        if d == 'j':
            return self._n(yday(self.year, self.month, self.day), 3)
        if d in 'aAwu':
            w = self.weekday()
            w = w.__index__()
            if d == 'w':
                return [str((w + 1) % 7)]
            if d == 'u':
                return [str(w + 1)]
            return list(DAYS[w] if d == 'A' else DAYS[w][:3])
        if d in 'bBh':
            n = MONTHS[self.month - 1]
            return list(n if d == 'B' else n[:3])
        if d == 'p':
            return list('AM' if self.hour < 12 else 'PM')
        if d == 'I':
            h = self.hour % 12
            return self._n(12 if h == 0 else h, 2)
        if d == 'U':
            return self._n((yday(self.year, self.month, self.day) + 6 - (self.weekday() + 1) % 7) // 7, 2)
        if d == 'W':
            return self._n((yday(self.year, self.month, self.day) + 6 - self.weekday()) // 7, 2)
        if d == 'F':
            return self.directive('Y') + ['-'] + self.directive('m') + ['-'] + self.directive('d')
        if d == 'T' or d == 'X':
            return self.directive('H') + [':'] + self.directive('M') + [':'] + self.directive('S')
        if d == 'D' or d == 'x':
            return self.directive('m') + ['/'] + self.directive('d') + ['/'] + self.directive('y')
        if d == 'c':
            return self.directive('a') + [' '] + self.directive('b') + [' '] + self._n(self.day, 2) + [' '] + \
                self.directive('T') + [' '] + self.directive('Y')
        if d in 'zZ':
            return []
        return ['%', d]
