"""Rounding, flooring and ceiling to a multiple."""
from fractions import Fraction
from sx.harness import H

INT_Q = [1, 2, 3, 5, 7, 10, 25, 50, 100, 250, 500, 1000, 2500, 10000, 100000, 1000000]
FRAC_Q = [0.1, 0.01, 0.001, 0.5, 0.25, 0.2, 0.05, 0.125]


def oracle(inp, kind, v, r, step, tol):
    lo, hi = {'round': (-step / 2 - tol, step / 2 + tol), 'floor': (-step - tol, tol),
              'ceil': (-tol, step + tol)}[kind]
    d = r - v
    return inp.all([d >= lo, d <= hi])


def run(inp, kind, v, step):
    text = inp.mod('impactutils.textformat.text')
    f = getattr(text, kind + '_to_nearest')
    if inp.p.get('default'):
        return inp.call(kind, f, v)
    return inp.call(kind, f, v, step)


def ints(inp):
    """integer value, integer step: exact"""
    kind, step = inp.p['kind'], inp.p['step']
    v = inp.int('v', -10**12, 10**12)
    r = run(inp, kind, v, step)
    inp.reach('int')
    inp.check(inp.pytype(r) is int, lambda: f'{kind}({v},{step}) is {type(r)}')
    inp.check(r % step == 0, lambda: f'{kind}({v},{step}) = {r}: not a multiple')
    d = r - v
    ok = {'round': inp.all([2 * d <= step, 2 * d >= -step]),
          'floor': inp.all([d <= 0, d > -step]), 'ceil': inp.all([d >= 0, d < step])}[kind]
    inp.check(ok, lambda: f'{kind}({v},{step}) = {r}')


def reals(inp):
    """real value, integer step"""
    kind, step = inp.p['kind'], inp.p['step']
    v = inp.real('v', -10**9, 10**9)
    r = run(inp, kind, v, step)
    inp.reach('real')
    inp.check(inp.pytype(r) is int, lambda: f'{kind}({v},{step}) is {type(r)}')
    inp.check(r % step == 0, lambda: f'{kind}({v},{step}) = {r}: not a multiple')
    inp.check(oracle(inp, kind, v, r, step, 1e-5), lambda: f'{kind}({v},{step}) = {r}')


def fracs(inp):
    """real value, decimal step below one"""
    kind, step = inp.p['kind'], inp.p['step']
    v = inp.real('v', -10**6, 10**6)
    r = run(inp, kind, v, step)
    inp.reach('frac')
    fs = Fraction(repr(step))
    inp.check(oracle(inp, kind, v, r, step, 1e-6), lambda: f'{kind}({v},{step}) = {r}')
    # nearest multiple of the step
    q = r * fs.denominator / fs.numerator
    k = round(q)
    inp.check(inp.close(q, k, 1e-4), lambda: f'{kind}({v},{step}) = {r}: not a multiple')


def dflt(inp):
    text = inp.mod('impactutils.textformat.text')
    kind = inp.p['kind']
    v = inp.real('v', -10**9, 10**9)
    r = inp.call(kind, getattr(text, kind + '_to_nearest'), v)
    inp.reach('dflt')
    inp.check(r % 1000 == 0, lambda: f'{kind}({v}) = {r}')
    inp.check(oracle(inp, kind, v, r, 1000, 1e-5), lambda: f'{kind}({v}) = {r}')


KINDS = ['round', 'floor', 'ceil']
INT_T = sorted(set(INT_Q + list(range(1, 130)) + [10**k for k in range(10)] + [5 * 10**k for k in range(9)]))
FRAC_T = FRAC_Q + [0.0001, 0.3, 0.75, 0.4, 0.02, 0.025, 0.002, 0.625, 0.9, 0.99]
HARNESSES = [
    H(ints, quick=[dict(kind=k, step=s) for k in KINDS for s in INT_Q],
      thorough=[dict(kind=k, step=s) for k in KINDS for s in INT_T],
      bounds='every integer |v| <= 10^12, steps ' + str(INT_Q), reach=['int']),
    H(reals, quick=[dict(kind=k, step=s) for k in KINDS for s in INT_Q[::2]],
      thorough=[dict(kind=k, step=s) for k in KINDS for s in INT_T],
      bounds='every real |v| <= 10^9, tolerance 1e-5', reach=['real']),
    H(fracs, quick=[dict(kind=k, step=s) for k in KINDS for s in FRAC_Q],
      thorough=[dict(kind=k, step=s) for k in KINDS for s in FRAC_T],
      bounds='every real |v| <= 10^6, steps ' + str(FRAC_Q) + ', tolerance 1e-6', reach=['frac']),
    H(dflt, quick=[dict(kind=k) for k in KINDS], bounds='every real |v| <= 10^9', reach=['dflt']),
]
ASSUMPTIONS = ['floats modelled as reals; results compared with the stated tolerances',
               'steps are positive integers or decimal fractions in [0.0001, 1)']
