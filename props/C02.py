"""Digit grouping."""
from sx.harness import H

SEPS = ''.join(chr(c) for c in range(32, 127) if not chr(c).isdigit() and chr(c) != '\\' and chr(c) != '-')


def grouped(inp, intpart, sep):
    """reference: digits grouped by three from the right"""
    out = ''
    n = len(intpart)
    for i in range(n):
        if i and (n - i) % 3 == 0:
            out = out + sep
        out = out + intpart[i:i + 1]
    return out


def ref(inp, s, sep):
    sign = ''
    if s.startswith('-'):
        sign, s = '-', s[1:]
    i = s.find('.')
    ip, fp = (s, '') if i < 0 else (s[:i], s[i:])
    return sign + grouped(inp, ip, sep) + fp


def integers(inp):
    text = inp.mod('impactutils.textformat.text')
    n = inp.int('n', *inp.p['r'])
    r = inp.call('commify', text.commify, n)
    inp.reach('int')
    inp.check(r == ref(inp, inp.str(n), ','), lambda: f'commify({n}) = {r!r}')


def separators(inp):
    text = inp.mod('impactutils.textformat.text')
    n = inp.int('n', *inp.p['r'])
    sep = inp.string('sep', 0, inp.p.get('maxsep', 2), SEPS)
    r = inp.call('commify', text.commify, n, separator=sep)
    inp.reach('sep')
    inp.check(r == ref(inp, inp.str(n), sep), lambda: f'commify({n},{sep!r}) = {r!r}')


def decimals(inp):
    text = inp.mod('impactutils.textformat.text')
    x = inp.dec('x', *inp.p['r'])
    r = inp.call('commify', text.commify, x)
    inp.reach('dec')
    inp.check(r == ref(inp, inp.str(x), ','), lambda: f'commify({x}) = {r!r}')


def texts(inp):
    """digits already in text form, optional sign and fraction"""
    text = inp.mod('impactutils.textformat.text')
    s = inp.choice('sign', ['', '-']) + inp.string('ip', 1, inp.p['ip'], '0123456789')
    fp = inp.string('fp', 0, inp.p['fp'], '0123456789')
    if len(fp):
        s = s + '.' + fp
    r = inp.call('commify', text.commify, s)
    inp.reach('text')
    inp.check(r == ref(inp, s, ','), lambda: f'commify({s!r}) = {r!r}')


HARNESSES = [
    H(integers, quick=[dict(r=[-10**18, -1]), dict(r=[0, 10**18])],
      thorough=[dict(r=[-10**36, -1]), dict(r=[0, 10**36])],
      bounds='every integer |n| <= 10^18 (thorough 10^36)', reach=['int']),
    H(separators, quick=[dict(r=[-10**9, 10**9], maxsep=2)],
      thorough=[dict(r=[-10**15, 10**15], maxsep=4)],
      bounds='|n| <= 10^9 (10^15), separator of 0..2 (4) printable characters other than digits, minus, backslash',
      reach=['sep']),
    H(decimals, quick=[dict(r=[-10**6, 10**6, 4])], thorough=[dict(r=[-10**11, 10**11, 4])],
      bounds='decimal floats |x| <= 10^6 with at most 4 decimals (10^11, 4)', reach=['dec']),
    H(texts, quick=[dict(ip=10, fp=6)], thorough=[dict(ip=20, fp=10)],
      bounds='digit strings with up to 10 (20) integer and 6 (10) fraction digits', reach=['text']),
]
ASSUMPTIONS = ['separators contain no digit, minus sign or backslash (regular-expression template characters)',
               'floats are printed by their shortest repr; modelled for decimal values of fewer than 16 digits']
