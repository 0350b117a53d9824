"""Rupture text files: what is written is what is read."""
import json
import logging
import os

import numpy as np

from sx import flat
from sx.harness import H
from props import rupt


class Text:
    """readable object over (possibly symbolic) text"""

    def __init__(self, inp, text):
        self.inp, self.text, self.closed = inp, text, False
        self.left = None

    def _lines(self):
        if self.left is None:
            parts = self.text.split('\n')
            self.left = [q + '\n' for q in parts[:-1]] + ([parts[-1]] if len(parts[-1]) else [])
        return self.left

    def readlines(self):
        r, self.left = self._lines(), []
        return r

    def readline(self):
        ls = self._lines()
        return ls.pop(0) if ls else ''

    def __iter__(self):
        while self._lines():
            yield self.left.pop(0)

    def read(self, *a):
        r = ''.join([]) if self.left == [] else None
        if r is None:
            r = ''
            for x in self.readlines():
                r = r + x
        return r

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def prepare(inp):
    logging.disable(logging.CRITICAL)
    return inp.mod('impactutils.rupture.factory')


def source(inp, text, path):
    """the text behind a path or as an open object"""
    if not path:
        return Text(inp, text)
    name = os.path.join(inp.scratch(), 'rup.txt')
    if inp.symbolic:
        import builtins

        def op(p, mode='r', *a, **k):
            if p != name or 'w' in mode or 'a' in mode:
                raise OSError(p)
            return Text(inp, text)
        inp.override(builtins.open, op)

        def load(f, *a, **k):
            raise json.JSONDecodeError('not JSON', '', 0)
        inp.override(json.load, load)
        inp.override(json.loads, load)
    else:
        with open(name, 'w', encoding='latin-1', newline='') as f:
            f.write(text)
    return name


DIG = '0123456789'


def number(inp, name, kind):
    """(text, value)"""
    d = lambda i: inp.string(f'{name}_{i}', 1, 1, DIG)
    if kind == 'int':
        t = d(0)
    elif kind == 'neg':
        t = '-' + d(0) + d(1) + '.' + d(2)
    elif kind == 'long':
        t = '1' + d(0) + d(1) + '.' + d(2) + d(3) + d(4) + d(5)
    elif kind == 'exp':
        t = d(0) + '.' + d(1) + 'e1'
    else:
        t = d(0) + '.' + d(1)
    return t, inp.parse_float(t)


def valid(inp, ring):
    n = len(ring) - 1
    return inp.all([ring[j][2] < ring[n - 1 - j][2] for j in range(n // 2)])


def same(inp, got, want, exact=True):
    if len(got) != len(want):
        return False
    eq = (lambda a, b: a == b) if exact is True else (lambda a, b: inp.close(a, b, exact))
    return inp.all([inp.all([len(a) == 3] + [eq(x, y) for x, y in zip(a, b)]) for a, b in zip(got, want)])


def polys(d):
    return d['features'][0]['geometry']['coordinates'][0]


def rotations(ring):
    c = ring[:-1]
    for r in range(len(c)):
        q = c[r:] + c[:r]
        yield q + [q[0]]


SEPS = [' ', '   ', '\t', ',', ', ', ' , ', ' \t']


def line(inp):
    """how one line of coordinates may be written"""
    F = prepare(inp)
    new = inp.flag('new')
    sep = inp.choice('sep', SEPS)
    lead, end = inp.choice('pad', [('', '\n'), ('  ', ' \n'), ('\t', '\r\n')])
    kinds = inp.p['kinds']
    nums = [number(inp, f'c{i}', k) for i, k in enumerate(kinds)]
    first = lead + nums[0][0] + sep + nums[1][0] + sep + nums[2][0] + end
    x, y, z = [v for _, v in nums]
    if not new:
        x, y = y, x
    inp.assume(z < 50)

    def row(*c):
        c = c if new else (c[1], c[0], c[2])
        return sep.join(str(k) for k in c) + end
    text = first + row(1, 2.5, 1) + row(1.25, 2.5, 99.5) + row(1, 2, 88) + first
    path = inp.flag('path')
    d = inp.call('read', F.text_to_json, source(inp, text, path), new_format=new)
    inp.reach('read')
    want = [[x, y, z], [1.0, 2.5, 1.0], [1.25, 2.5, 99.5], [1.0, 2.0, 88.0], [x, y, z]]
    inp.check(len(polys(d)) == 1 and same(inp, polys(d)[0], want), lambda: f'{text!r} read as {polys(d)}')
    inp.check(d['type'] == 'FeatureCollection' and len(d['features']) == 1 and
              d['features'][0]['geometry']['type'] == 'MultiPolygon' and d['metadata']['reference'] == '', 'frame')


COMM = ['#', '# ', '  # ', '##']


def layout(inp):
    """comments, blank lines and group separators"""
    F = prepare(inp)
    n, nc, where = inp.p['n'], inp.p['nc'], inp.p['where']
    if inp.p['marks']:
        lead = inp.flag('lead')
        trail = inp.flag('trail')
        twice = n > 1 and inp.flag('twice')
        blank = inp.choice('blank', ['', '\n', '  \n\t\n'])
        mark = inp.choice('mark', ['>', ' > ', '> segment 2'])
    else:
        lead, trail, twice, blank, mark = inp.flag('lead'), False, False, '', '>'
    rings, text, words = [], '', []
    def comment(i):
        w = inp.string(f'w{i}', 1, 2, 'aB .(1,')
        inp.assume(inp.no(w[0] == ' '))
        words.append(w)
        return inp.choice(f'c{i}', COMM[:2 if i else 4]) + w + '\n'
    if where == 'top':
        for i in range(nc):
            text = text + comment(i)
    if lead:
        text = text + mark + '\n'
    for g in range(n):
        t0, b0 = [inp.string(f'z{g}{k}', 1, 1, DIG) for k in 'tb']
        rows = [('10', '20', t0), ('10.5', '20', '0'), ('10.5', '21', '17.25'), (str(g), '21', '1' + b0)]
        rows.append(rows[0])
        rings.append([[inp.parse_float(c) for c in r] for r in rows])
        if g:
            text = text + (mark + '\n') * (2 if twice else 1) + blank
        if where == 'group' and len(words) < nc:
            text = text + comment(len(words))
        for k, r in enumerate(rows):
            if where == 'inside' and k == 2 and len(words) < nc:
                text = text + comment(len(words))
            text = text + r[0] + ' ' + r[1] + ' ' + r[2] + ('\n' if trail or g < n - 1 or k < 4 else '')
    if trail:
        text = text + mark + '\n' + blank
    d = inp.call('read', F.text_to_json, Text(inp, text), new_format=True)
    inp.reach('layout')
    got = polys(d)
    inp.check(len(got) == n and inp.all([same(inp, a, b) for a, b in zip(got, rings)]),
              lambda: f'{text!r} read as {got}')
    ref = d['metadata']['reference']
    # every comment, in order, nothing else
    rest = ref
    ok = True
    for w in words:
        w = w.strip()
        k = rest.find(w)
        if inp.is_sym(k) or k >= 0:
            ok = inp.all([ok, k >= 0, len(rest[:k].strip()) == 0])
            rest = rest[k + len(w):]
        else:
            ok = False
    inp.check(inp.all([ok, len(rest.strip()) == 0]), lambda: f'reference {ref!r} of {text!r}')


def rings(inp):
    """rings may start at any corner"""
    F = prepare(inp)
    n = inp.p['n']
    zs = [inp.string(f'z{i}', 1, 1, DIG) for i in range(n)]
    second = inp.p.get('second')
    rows = [(f'{i}', f'{i * i}', z) for i, z in enumerate(zs)]
    ring = [[inp.parse_float(c) for c in r] for r in rows]
    ring.append(list(ring[0]))
    text = ''
    for r in rows + rows[:1]:
        text = text + r[0] + ' ' + r[1] + ' ' + r[2] + '\n'
    extra = [[30.0, 1.0, 2.0], [31.0, 1.0, 2.0], [31.0, 2.0, 4.0], [30.0, 2.0, 5.0], [30.0, 1.0, 2.0]]
    et = '>\n' + ''.join('%g %g %g\n' % tuple(r) for r in extra)
    if second == 'after':
        text = text + et
    elif second == 'before':
        text = et[2:] + '>\n' + text
    d, e = inp.raises(F.text_to_json, Text(inp, text), new_format=True)
    inp.reach('ring')
    fits = [valid(inp, q) for q in rotations(ring)]
    if e is not None:
        inp.check(isinstance(e, ValueError), lambda: f'{e!r}')
        inp.check(inp.no(inp.any(fits)), lambda: f'{text!r} rejected: {e}')
        return
    got = polys(d)
    inp.check(len(got) == (2 if second else 1), lambda: f'{len(got)} groups')
    if second:
        k = 1 if second == 'after' else 0
        inp.check(same(inp, got[k], extra), lambda: f'other group read as {got[k]}')
        got = got[1 - k]
    else:
        got = got[0]
    # as given when that is right, otherwise from another corner
    if valid(inp, ring):
        inp.check(same(inp, got, ring), lambda: f'{text!r} read as {got}')
    else:
        inp.check(inp.all([valid(inp, got), inp.any([same(inp, got, q) for q in rotations(ring)])]),
                  lambda: f'{text!r} read as {got}')


def bad(inp):
    """what is no rupture is rejected"""
    F = prepare(inp)
    what = inp.p['what']
    new = inp.flag('new')
    a, b = [inp.string(k, 1, 1, DIG) for k in 'ab']
    rows = [['1', '2', a], ['3', '2', '4'], ['3', '4', '1' + b], ['1', '4', '15']]
    rows.append(rows[0])
    k = inp.choice('row', range(5))
    if what == 'columns':
        rows[k] = rows[k][:2] if inp.flag('two') else rows[k] + ['7']
    elif what == 'one':
        sep = inp.choice('sep', [';', '/', ':'])
        rows = [[r[0] + sep + r[1] + sep + r[2]] for r in rows]
    elif what == 'word':
        w = inp.string('w', 1, 3, 'abx-./_')
        rows[k] = list(rows[k])
        rows[k][inp.choice('col', range(3))] = w
    elif what == 'open':
        j = inp.choice('col', range(3))
        rows[4] = list(rows[0])
        o = inp.string('o', 1, 1, DIG)
        inp.assume(inp.no(o == rows[0][j]))
        rows[4][j] = o
    elif what == 'even':
        rows = rows[:2] + [['9', '9', inp.string('o', 1, 1, DIG)]] + rows[2:]
    text = ''
    for r in rows:
        for i, q in enumerate(r):
            text = text + (' ' if i else '') + q
        text = text + '\n'
    d, e = inp.raises(F.text_to_json, Text(inp, text), new_format=new)
    inp.reach('rejected')
    inp.check(e is not None, lambda: f'{text!r} read as {polys(d)}')
    # and there is no rupture either
    r, e = inp.raises(F.get_rupture, rupt.origin(inp), source(inp, text, True), new_format=new)
    inp.check(isinstance(e, (ValueError, IOError)), lambda: f'{text!r}: {r!r} {e!r}')


def written(inp):
    """a written rupture file holds the quadrilaterals"""
    flat.install(inp)
    F = prepare(inp)
    Q = inp.mod('impactutils.rupture.quad_rupture')
    d, dip = rupt.pair(inp, rupt.DIRS[inp.p['dir']]), rupt.pair(inp, rupt.DIPS[inp.p['dip']])
    p0 = [inp.const(x) for x in ('-118.42137', '34.31549', '5.00251')]
    k, lo, hi = inp.p['vary']
    if k is not None:
        p0[k] = inp.dec('v', lo, hi, 5)
    q = rupt.quad(rupt.pt(inp, *p0), d, dip, inp.const('25.03'), inp.const('10.01'))
    if inp.p.get('chain'):
        # a second quadrilateral continues the first
        q2 = [q[1], rupt.offset(q[1], d, inp.const('7.1')), rupt.offset(q[2], d, inp.const('7.1')), q[2]]
        poly = rupt.closed([q[0], q[1], q2[1], q2[2], q[2], q[3]])
        quads = [q, q2]
    else:
        poly, quads = rupt.closed(q), [q]
    ref = inp.choice('ref', ['r'] if k is not None else ['', 'A. Author (2000)', 'two\nlines', ' x'])
    rup = Q.QuadRupture(rupt.geojson([poly], ref), rupt.origin(inp))
    out = Sink()
    inp.call('write', rup.writeTextFile, out)
    back = inp.call('read back', F.text_to_json, Text(inp, out.text), new_format=False)
    inp.reach('written')
    got = polys(back)
    inp.check(len(got) == len(quads) and inp.all([same(inp, a, rupt.closed(b), 0.5001e-4) for a, b in zip(got, quads)]),
              lambda: f'{quads} written as {out.text!r}')
    r = back['metadata']['reference']
    inp.check(r.split() == ref.split() or r.replace(' ', '') == ref.replace('\n', '').replace(' ', ''),
              lambda: f'reference {ref!r} read back as {r!r}')


class Sink:
    def __init__(self):
        self.text = ''
        self.closed = False

    def read(self):
        raise AssertionError('read while writing')

    def write(self, s):
        self.text = self.text + s
        return len(s)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


KINDS = [('plain', 'neg', 'int'), ('long', 'plain', 'plain'), ('neg', 'exp', 'plain')]
WHAT = ['columns', 'one', 'word', 'open', 'even']

W = [('ne', 'd', 0, (None, 0, 0)), ('n', 'd', 1, (None, 0, 0)), ('ne', 'd', 0, (0, '-0.1', '0.1')), ('w', 's', 0, (0, 99.7, 100.3)),
     ('se', 'v', 0, (1, -0.2, 0.2)), ('n', 'd', 1, (1, 10, 10.5)), ('ne', 'd', 0, (2, 0, 20)), ('n', 'd', 1, (2, 0, 1))]

HARNESSES = [
    H(line, quick=[dict(kinds=k) for k in KINDS], bounds='one line with every digit, 7 separators, 3 paddings, both orders, path or object', reach=['read'], max_paths=4000),
    H(layout, quick=[dict(n=n, nc=0, where='top', marks=1) for n in (1, 2, 3)] + [dict(n=n, nc=c, where=w, marks=0) for n, c in ((1, 1), (2, 1), (2, 2)) for w in ('top', 'group', 'inside')],
      bounds='1..3 groups, up to 2 comments of 1..2 letters anywhere, blank lines, repeated separators', reach=['layout'], max_paths=20000),
    H(rings, quick=[dict(n=4), dict(n=4, second='after'), dict(n=4, second='before'), dict(n=6)],
      thorough=[dict(n=4), dict(n=4, second='after'), dict(n=4, second='before'), dict(n=6), dict(n=6, second='after'), dict(n=8)],
      bounds='rings of 4, 6 and (thorough) 8 corners with every combination of one-digit depths', reach=['ring'], max_paths=20000),
    H(bad, quick=[dict(what=w) for w in WHAT], bounds='five kinds of wrong text at every line and column', reach=['rejected'], max_paths=6000),
    H(written, quick=[dict(dir=d, dip=p, chain=c, vary=v) for d, p, c, v in W],
      bounds='one or two quadrilaterals, four orientations, each coordinate of the first corner over ranges with 5 decimals, four references', reach=['written']),
]
ASSUMPTIONS = ['numbers are decimal digits with at most 4 decimals or one exponent; the JSON parser rejects the texts considered',
               'written(): corners on a flat chart']
