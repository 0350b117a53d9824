"""Formatting of dates before 1900."""
from sx.harness import H

DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August',
          'September', 'October', 'November', 'December']
TOK = ['%Y', '%m', '%d', '%H', '%M', '%S', '%y', '%j', '%a', '%A', '%b', '%B', '%p', '%I', '%w', '%%', '%f',
       '%U', '%W', '-', 'Y', '%%Y', '%%%Y', '%%%%Y', '%Y%Y', 'T%d.']


def module(inp):
    if inp.symbolic:
        import sys
        from sx import instrument, symtime
        import types
        if 'impactutils.time.ancient_time' not in instrument.IMPORT_OVERRIDES:
            fake = types.ModuleType('datetime')
            fake.datetime = symtime.FakeDatetime
            instrument.IMPORT_OVERRIDES['impactutils.time.ancient_time'] = {'datetime': fake}
            sys.modules.pop('impactutils.time.ancient_time', None)
    return inp.mod('impactutils.time.ancient_time')


def pad(inp, v, n):
    s = inp.str(v)
    return '0' * (n - len(s)) + s


def isleap(y):
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def date(inp):
    if 'cent' in inp.p:
        y = 100 * inp.choice('cent', inp.p['cent']) + inp.int('yy', 0, 99)
        inp.assume(y >= 1)
    else:
        y = inp.int('year', *inp.p['r'])
    m = inp.choice('month', inp.p.get('months', range(1, 13)))
    d = inp.int('day', 1, 29 if m == 2 else DIM[m - 1])
    if m == 2 and d == 29:
        inp.assume(isleap(y))
    return y, m, d


def expect(inp, tok, y, m, d, t):
    if tok == '%%':
        return '%'
    if tok == '%%Y':
        return '%Y'
    if tok == '%%%Y':
        return '%' + pad(inp, y, 4)
    if tok == '%%%%Y':
        return '%%Y'
    if tok == '%Y%Y':
        return pad(inp, y, 4) + pad(inp, y, 4)
    if tok == 'T%d.':
        return 'T' + pad(inp, d, 2) + '.'
    if tok[0] != '%':
        return tok
    c = tok[1]
    yd = CUM[m - 1] + d + (1 if m > 2 and isleap(y) else 0) if c in 'jUWaAw' else None
    if c in 'aAwUW':
        p = y - 1
        w = (p * 365 + p // 4 - p // 100 + p // 400 + yd + 6) % 7
        if c in 'aAw':
            for k in range(7):
                if w == k:
                    return {'a': DAYS[k][:3], 'A': DAYS[k], 'w': str((k + 1) % 7)}[c]
        # week of year: number of Sundays (%U) / Mondays (%W) so far
        back = (w + 1) % 7 if c == 'U' else w
        return pad(inp, (yd - 1 - back + 7) // 7, 2)
    if c == 'Y':
        return pad(inp, y, 4)
    if c == 'y':
        return pad(inp, y % 100, 2)
    if c == 'm':
        return pad(inp, m, 2)
    if c == 'd':
        return pad(inp, d, 2)
    if c == 'j':
        return pad(inp, yd, 3)
    if c == 'b':
        return MONTHS[m - 1][:3]
    if c == 'B':
        return MONTHS[m - 1]
    H_, M, S, F = t
    if c == 'H':
        return pad(inp, H_, 2)
    if c == 'M':
        return pad(inp, M, 2)
    if c == 'S':
        return pad(inp, S, 2)
    if c == 'f':
        return pad(inp, F, 6)
    if c == 'p':
        return 'AM' if H_ < 12 else 'PM'
    if c == 'I':
        h = H_ % 12
        return pad(inp, 12 if h == 0 else h, 2)


def tokens(inp):
    at = module(inp)
    toks = [inp.p['tok']] if isinstance(inp.p['tok'], str) else list(inp.p['tok'])
    y, m, d = date(inp)
    t = (inp.int('H', 0, 23), inp.int('M', 0, 59), inp.int('S', 0, 59), inp.int('F', 0, 999999))
    x = at.HistoricTime(y, m, d, *t)
    fmt = ''.join(toks)
    r = inp.call(f'strftime({fmt!r})', x.strftime, fmt)
    inp.reach('ok')
    want = ''
    for k in toks:
        want = want + expect(inp, k, y, m, d, t)
    inp.check(r == want, lambda: f'{y}-{m}-{d} {t} {fmt!r} -> {r!r}, expected {want!r}')


def locale(inp):
    """%c / %x cannot be rendered faithfully before 1900 and are refused"""
    at = module(inp)
    y = inp.int('year', 1, 1899)
    m = inp.choice('month', [1, 2, 10])
    d = inp.int('day', 1, 28)
    pre = inp.choice('pre', ['', '%%', '%d ', '%%c ', '%%x '])
    fmt = pre + inp.choice('bad', ['%c', '%x'])
    x = at.HistoricTime(y, m, d)
    r, e = inp.raises(x.strftime, fmt)
    inp.reach('refused')
    inp.check(isinstance(e, ValueError), lambda: f'{y}-{m}-{d} {fmt!r} -> {r!r} {e!r}')


def nolocale(inp):
    """escaped %%c / %%x are literal text"""
    at = module(inp)
    y = inp.int('year', 1, 1899)
    lit = inp.choice('lit', ['%%c', '%%x', 'c%%x', '%%%%c'])
    r = inp.call('strftime', at.HistoricTime(y, 6, 15).strftime, lit + '%Y')
    inp.reach('literal')
    inp.check(r == lit.replace('%%', '%') + pad(inp, y, 4), lambda: f'{y} {lit!r} -> {r!r}')


PAIRS = [('%Y', '-', '%m', '-', '%d'), ('%d', '/', '%m', '/', '%Y', ' ', '%H', ':', '%M', ':', '%S'),
         ('%d', ' ', '%B', ' ', '%Y'), ('%%', '%Y', '%y', '%j')]
WK = ('%a', '%A', '%w', '%U', '%W')
QC = [[0], [3], [10], [18]]
HARNESSES = [
    H(tokens, quick=[dict(tok=t, r=[1, 1899]) for t in TOK if t not in WK + ('%j',)] +
      [dict(tok='%j', r=[1, 1899], months=[1, 2, 3, 12])] +
      [dict(tok=t, cent=c, months=[m]) for t in WK for c in QC for m in ((2,) if t in ('%A', '%w') else (2, 12))] +
      [dict(tok=list(t), r=[1, 1899], months=[2, 10]) for t in PAIRS],
      thorough=[dict(tok=t, r=[1, 1899]) for t in TOK if t not in WK] +
      [dict(tok=t, cent=[c], months=[m, m + 4, m + 8]) for t in WK for c in range(19) for m in (1, 2, 3, 4)] +
      [dict(tok=list(t), r=[1, 1899]) for t in PAIRS],
      bounds='every date and time in years 1..1899, each directive alone and in combined formats; quick: %j in 4 months, '
             'weekday and week-number directives in February (and December) of centuries 0, 3, 10 and 18; '
             'thorough: every month and century', path_s=120,
      reach=['ok']),
    H(tokens, name='modern', quick=[dict(tok=t, r=[1900, 9999], months=[2, 7]) for t in ('%Y', '%y', '%%Y')] +
      [dict(tok='%a', cent=[20], months=[2])],
      thorough=[dict(tok=t, r=[1900, 9999]) for t in TOK if t not in WK] +
      [dict(tok=t, cent=[c], months=[2, 7]) for t in WK for c in (19, 20, 24)], bounds='years 1900..9999', reach=['ok'],
      path_s=120),
    H(locale, bounds='years 1..1899, three months, days 1..28', reach=['refused']),
    H(nolocale, bounds='years 1..1899', reach=['literal']),
]
ASSUMPTIONS = ['the base class datetime is modelled (proleptic Gregorian calendar, C-locale strftime directives); every path witness is replayed on the real datetime',
               'directives outside %Y %m %d %H %M %S %f %y %j %a %A %b %B %p %I %w %U %W %% (for instance %G, %C, %F) are outside the claim']
