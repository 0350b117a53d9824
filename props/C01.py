"""Roman numerals and thousands separators."""
from sx.harness import H

D = {'I': 1, 'V': 5, 'X': 10, 'L': 50, 'C': 100, 'D': 500, 'M': 1000}


def canon(n):
    """the unique canonical numeral, digit by digit (independent table)"""
    one = ['', 'I', 'II', 'III', 'IV', 'V', 'VI', 'VII', 'VIII', 'IX']
    def dig(d, a, b, c):
        return one[d].replace('X', '#').replace('V', b).replace('I', a).replace('#', c)
    return 'M' * (n // 1000) + dig(n // 100 % 10, 'C', 'D', 'M') + \
        dig(n // 10 % 10, 'X', 'L', 'C') + dig(n % 10, 'I', 'V', 'X')


def roman(inp):
    text = inp.mod('impactutils.textformat.text')
    n = inp.int('n', inp.p['lo'], inp.p['hi'])
    s = inp.call('dec_to_roman', text.dec_to_roman, n)
    inp.reach('numeral')
    tot = 0
    # value of the returned numeral by the subtractive rule
    v = [D.get(c, 10 ** 9) for c in s]
    for i, x in enumerate(v):
        tot += -x if i + 1 < len(v) and v[i + 1] > x else x
    inp.check(n == tot, lambda: f'numeral {s} for {n}')
    inp.check(0 < tot < 4000 and s == canon(tot), lambda: f'numeral {s} for {n} not canonical')


def outside(inp):
    text = inp.mod('impactutils.textformat.text')
    n = inp.int('n', *inp.p['r'])
    r, e = inp.raises(text.dec_to_roman, n)
    inp.reach('rejected')
    inp.check(isinstance(e, ValueError), lambda: f'{n}: returned {r!r}, raised {e!r}')


HARNESSES = [
    H(roman, quick=[dict(lo=1 + 500 * i, hi=min(3999, 500 * i + 500)) for i in range(8)],
      bounds='every integer 1..3999', reach=['numeral']),
    H(outside, quick=[dict(r=[4000, None]), dict(r=[None, 0])], bounds='every integer <= 0 or >= 4000',
      reach=['rejected']),
]
