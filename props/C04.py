"""Population and dollar abbreviations."""
from sx.harness import H

UNITS = {'short': {'K': 10**3, 'M': 10**6, 'B': 10**9},
         'long': {' thousand': 10**3, ' million': 10**6, ' billion': 10**9}}


def unsep(s):
    return s.replace(',', '')


def group_ok(s):
    """thousands groups: d{1,3}(,ddd)*  (works on symbolic text)"""
    parts = s.split(',')
    if not 1 <= len(parts[0]) <= 3:
        return False
    return all(len(p) == 3 for p in parts[1:])


def pop_round(inp):
    text = inp.mod('impactutils.textformat.text')
    v = inp.int('v', 0, inp.p['hi'])
    r = inp.call('pop_round', text.pop_round, v)
    inp.reach('r')
    inp.check(group_ok(r), lambda: f'{v} -> {r}')
    n = inp.parse_int(unsep(r))
    inp.check(inp.all([n % 1000 == 0, 2 * (n - v) <= 1000, 2 * (v - n) <= 1000]), lambda: f'{v} -> {r}')


def pop_short(inp):
    text = inp.mod('impactutils.textformat.text')
    v = inp.int('v', 0, inp.p['hi'])
    um = inp.flag('usemillion')
    r = inp.call('pop_round_short', text.pop_round_short, v, usemillion=um)
    if v < 1000:
        inp.reach('small')
        inp.check(inp.parse_int(r) == v, lambda: f'{v} -> {r}')
        return
    suffix, num = r[-1:], r[:-1]
    if v >= 1000000 and um:
        inp.reach('m')
        inp.check(suffix == 'm' and group_ok(num), lambda: f'{v} -> {r}')
        n = inp.parse_int(unsep(num))
        # whole millions of the value rounded to the nearest thousand
        inp.check(inp.all([1000000 * n <= v + 500, 1000000 * (n + 1) > v - 501]), lambda: f'{v} -> {r}')
    else:
        inp.reach('k')
        inp.check(suffix == 'k' and group_ok(num), lambda: f'{v} -> {r}')
        n = inp.parse_int(unsep(num))
        inp.check(inp.all([2 * (1000 * n - v) <= 1000, 2 * (v - 1000 * n) <= 1000]), lambda: f'{v} -> {r}')


def sig(inp, v, digits):
    """quantum of v's last significant digit, v > 0 (forks on the decade)"""
    e = 0
    while v >= 10 ** (e + 1):
        e += 1
    return 10.0 ** (e - digits + 1) if e - digits + 1 < 0 else 10 ** (e - digits + 1)


def dollar(inp):
    text = inp.mod('impactutils.textformat.text')
    digits, mode = inp.p['digits'], inp.p['mode']
    v = inp.int('v', *inp.p['r'])
    kw = dict(digits=digits, mode=mode)
    if digits == 2 and inp.p.get('dflt'):
        kw = dict(mode=mode) if mode != 'short' else {}
    r = inp.call('dollar_round', text.dollar_round, v, **kw)
    inp.check(r[:1] == '$', lambda: f'{v} -> {r}')
    body = r[1:]
    if v < 1000:
        inp.reach('plain')
        unit = 1
    else:
        unit = None
        for sfx, u in UNITS[mode].items():
            if body.endswith(sfx):
                unit, body = u, body[:len(body) - len(sfx)]
                break
        inp.reach('unit')
        want = 10**3 if v < 10**6 else 10**6 if v < 10**9 else 10**9
        inp.check(unit == want, lambda: f'{v} ({mode}) -> {r}')
        if unit != want:
            return
    inp.check(group_ok(body) if unit == 1 else True, lambda: f'{v} -> {r}')
    amount = inp.parse_float(unsep(body)) * unit
    if v == 0:
        inp.check(amount == 0, lambda: f'{v} -> {r}')
        return
    q = sig(inp, v, digits)
    if q < 1:
        q = 1
    tol = q * 1e-6
    d = amount - v
    inp.check(inp.all([d <= q / 2 + tol, d >= -q / 2 - tol]), lambda: f'{v} -> {r}')
    k = amount / q
    inp.check(inp.close(k, round(k), 1e-4), lambda: f'{v} -> {r}: more than {digits} significant digits')


def precision(inp):
    text = inp.mod('impactutils.textformat.text')
    digits = inp.p['digits']
    v = inp.int('v', 1, inp.p['hi'])
    mode = inp.choice('mode', ['int', 'float'])
    r = inp.call('set_num_precision', text.set_num_precision, v, digits, mode=mode)
    inp.reach(mode)
    inp.check(inp.pytype(r) is (int if mode == 'int' else float), lambda: f'{type(r)}')
    q = sig(inp, v, digits)
    if q < 1:
        q = 1
    d = r - v
    inp.check(inp.all([d <= q / 2, d >= -q / 2, r % q == 0]), lambda: f'{v} to {digits} digits -> {r}')


def fracprec(inp):
    """values with a fractional part"""
    text = inp.mod('impactutils.textformat.text')
    digits = inp.p['digits']
    v = inp.real('v', inp.p['lo'], inp.p['hi'])
    r = inp.call('set_num_precision', text.set_num_precision, v, digits, mode='float')
    inp.reach('frac')
    e = -6
    while v >= (10 ** (e + 1) if e >= -1 else 1 / 10 ** (-e - 1)):
        e += 1
    x = e - digits + 1
    q = 10 ** x if x >= 0 else 1 / 10 ** (-x)
    tol = q * 1e-6
    d = r - v
    inp.check(inp.all([d <= q / 2 + tol, d >= -q / 2 - tol]), lambda: f'{v} to {digits} digits -> {r}')
    k = r * 10 ** (-x) if x < 0 else r / 10 ** x
    inp.check(inp.close(k, round(k), 1e-4), lambda: f'{v} to {digits} digits -> {r}')


RNG = [[0, 999], [1000, 10**6 - 1], [10**6, 10**9 - 1], [10**9, 10**13]]
HARNESSES = [
    H(pop_round, quick=[dict(hi=10**11)], thorough=[dict(hi=10**14)], bounds='0 <= v <= 10^11 (10^14)', reach=['r']),
    H(pop_short, quick=[dict(hi=10**11)], thorough=[dict(hi=10**14)], bounds='0 <= v <= 10^11 (10^14)',
      reach=['small', 'k', 'm']),
    H(dollar, quick=[dict(digits=d, mode=m, r=r) for d in (1, 2, 3) for m in ('short', 'long') for r in RNG] +
      [dict(digits=2, mode=m, r=r, dflt=1) for m in ('short', 'long') for r in RNG],
      thorough=[dict(digits=d, mode=m, r=r) for d in range(1, 8) for m in ('short', 'long') for r in RNG],
      bounds='integer dollars 0..10^13, 1..3 (7) significant digits', reach=['plain', 'unit']),
    H(precision, quick=[dict(digits=d, hi=10**12) for d in (1, 2, 3, 5)],
      thorough=[dict(digits=d, hi=10**14) for d in range(1, 12)], bounds='integers 1..10^12', reach=['int', 'float']),
    H(fracprec, quick=[dict(digits=d, lo=1e-4, hi=1e6) for d in (1, 2, 3, 5)],
      thorough=[dict(digits=d, lo=1e-5, hi=1e9) for d in range(1, 9)], bounds='reals 1e-4..1e6', reach=['frac']),
]
ASSUMPTIONS = ['floats modelled as reals (decimal rendering with correct rounding)']
