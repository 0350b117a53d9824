"""Elapsed time."""
import datetime
from sx.harness import H

US = 1000000


def mk(inp, us):
    if inp.symbolic:
        from sx.symtime import STime
        return STime(us)
    return datetime.datetime(1, 1, 1) + datetime.timedelta(microseconds=us)


TOP = (datetime.datetime(9999, 12, 31) - datetime.datetime(1, 1, 1)).days * 86400 * US


def parts(total):
    return dict(weeks=total // 604800, days=total // 86400 % 7, hours=total // 3600 % 24,
                minutes=total // 60 % 60, seconds=total % 60)


def decompose(inp):
    tu = inp.mod('impactutils.time.timeutils')
    a = inp.int('t1', 0, TOP)
    b = inp.int('t2', 0, TOP)
    inp.assume(b >= a)
    r = inp.call('getTimeElapsed', tu.ElapsedTime().getTimeElapsed, mk(inp, a), mk(inp, b))
    inp.reach('ok')
    total = (b - a) // US
    inp.check(sorted(r) == ['days', 'hours', 'minutes', 'seconds', 'weeks'], lambda: f'keys {sorted(r)}')
    inp.check(total == r['weeks'] * 604800 + r['days'] * 86400 + r['hours'] * 3600 +
              r['minutes'] * 60 + r['seconds'], lambda: f'{total} s -> {r}')
    inp.check(inp.all([r['weeks'] >= 0, r['days'] >= 0, r['days'] <= 6, r['hours'] >= 0, r['hours'] <= 23,
                       r['minutes'] >= 0, r['minutes'] <= 59, r['seconds'] >= 0, r['seconds'] <= 59]),
              lambda: f'{total} s -> {r}')


def reject(inp):
    tu = inp.mod('impactutils.time.timeutils')
    a = inp.int('t1', 0, TOP)
    b = inp.int('t2', 0, TOP)
    inp.assume(b < a)
    f = inp.choice('f', ['getTimeElapsed', 'getElapsedString'])
    r, e = inp.raises(getattr(tu.ElapsedTime(), f), mk(inp, a), mk(inp, b))
    inp.reach('rejected')
    inp.check(e is not None, lambda: f'{f} accepted an end before its start: {r}')


def text(inp):
    tu = inp.mod('impactutils.time.timeutils')
    a = inp.int('t1', 0, TOP)
    b = inp.int('t2', 0, TOP)
    lo, hi = inp.p['r']
    total = (b - a) // US
    inp.assume(b >= a)
    inp.assume(inp.all([total >= lo, total <= hi]))
    s = inp.call('getElapsedString', tu.ElapsedTime().getElapsedString, mk(inp, a), mk(inp, b))
    inp.reach('text')
    p = parts(total)
    units = ['weeks', 'days', 'hours', 'minutes', 'seconds']
    def word(n, u):
        return inp.str(n) + ' ' + (u[:-1] if n == 1 else u)
    want = None
    for i, u in enumerate(units[:-1]):
        if p[u] != 0:
            want = word(p[u], u) + ', ' + word(p[units[i + 1]], units[i + 1])
            break
    if want is None:
        want = word(p['seconds'], 'seconds')
    inp.check(s == want, lambda: f'{total} s -> {s!r}, expected {want!r}')


W = 604800
HARNESSES = [
    H(decompose, bounds='every pair of datetimes (microseconds) in years 1..9999', reach=['ok']),
    H(reject, bounds='every pair with end before start', reach=['rejected']),
    H(text, quick=[dict(r=[0, 59]), dict(r=[60, 3599]), dict(r=[3600, 86399]), dict(r=[86400, W - 1]),
                   dict(r=[W, 100 * W])],
      thorough=[dict(r=[0, 59]), dict(r=[60, 3599]), dict(r=[3600, 86399]), dict(r=[86400, W - 1]),
                dict(r=[W, 100 * W]), dict(r=[100 * W, 521000 * W])],
      bounds='spans 0..100 weeks (521000 weeks) between any two datetimes', reach=['text']),
]
ASSUMPTIONS = ['datetimes are naive or share one UTC offset; datetime/timedelta arithmetic is exact (modelled as integer microseconds)']
