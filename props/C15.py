"""Scale bars on maps."""
from fractions import Fraction

import numpy as np

from sx.harness import H


class Linear:
    """display = data * k + o"""

    def __init__(self, kx, ox, ky, oy, back=False):
        self.k, self.back = (kx, ox, ky, oy), back

    def inverted(self):
        return Linear(*self.k, back=not self.back)

    def transform(self, p):
        kx, ox, ky, oy = self.k
        if self.back:
            return ((p[0] - ox) / kx, (p[1] - oy) / ky)
        return (p[0] * kx + ox, p[1] * ky + oy)


class Proj:
    def __init__(self, units=None):
        self.proj4_params = {'units': units} if units else {}


class Fig:
    def __init__(self, w, h):
        self.size = (w, h)
        self.transFigure = Linear(w * 72, 0, h * 72, 0)
        self.dpi = 72

    def get_size_inches(self):
        return self.size


def axes(inp, ext, fig, rect, projection):
    from cartopy.mpl.geoaxes import GeoAxes
    x0, x1, y0, y1 = ext
    l, b, w, h = [a * s * 72 for a, s in zip(rect, (*fig.size, *fig.size))]

    class Axes(GeoAxes):
        def __init__(self):
            self.__dict__['projection'] = projection
            self.__dict__['drawn'] = []

        figure = property(lambda self: fig)
        transAxes = property(lambda self: Linear(w, l, h, b))
        transData = property(lambda self: Linear(w / (x1 - x0), l - x0 * (w / (x1 - x0)), h / (y1 - y0), b - y0 * (h / (y1 - y0))))

        def get_xlim(self):
            return (x0, x1)

        def get_ylim(self):
            return (y0, y1)

        def text(self, x, y, s, **kw):
            self.drawn.append(('text', x, y, s, kw))

        def plot(self, x, y, *a, **kw):
            self.drawn.append(('line', list(x), list(y), a, kw))

        def fill(self, x, y, *a, **kw):
            self.drawn.append(('fill', list(x), list(y), a, kw))
    return Axes()


def place(inp):
    """where the bar is drawn, how long, and what it says"""
    import cartopy.crs as ccrs
    S = inp.mod('impactutils.mapping.scalebar')
    kind, units, pos = inp.p['kind'], inp.p.get('units', 'km'), inp.p['pos']
    length, div = inp.p.get('bar', (None, None))
    mpu = {'km': '1000', 'm': '1', 'mi': '1609.344', 'ft': '0.3048', 'kmi': '1852', 'yd': '0.9144', 'in': '0.0254', 'fath': '1.8288', 'us-ft': '1200/3937',
           'cm': '1/100', 'mm': '1/1000', 'dm': '1/10', 'ch': '20.1168', 'link': '0.201168'}
    width = inp.real('width', *inp.p['width'])
    height = inp.real('height', *inp.p.get('height', inp.p['width']))
    if kind == 'plate':
        cl, s, c = inp.angle('clat', -80, 80, 180.0)
        inp.assume(c > 0.17)
        projection, unit = ccrs.PlateCarree(), 111191 * c
        y0 = cl - height / 2
    else:
        projection, unit = (ccrs.Mercator() if kind == 'mercator' else Proj(kind)), inp.const(mpu[{'mercator': 'm'}.get(kind, kind or 'm')])
        y0 = inp.real('south', -1000000, 1000000)
    x0 = inp.real('west', -1000000, 1000000) if kind != 'plate' else inp.real('west', -180, 180)
    fig = Fig(inp.real('wi', 2, 20), inp.real('hi', 2, 20)) if inp.p.get('size') else Fig(inp.const('8'), inp.const('6'))
    rect = [inp.const(v) for v in inp.p.get('rect', ('0', '0', '1', '1'))]
    ax = axes(inp, (x0, x0 + width, y0, y0 + height), fig, rect, projection)
    padx, pady = inp.real('padx', 0, 1), inp.real('pady', 0, 1)
    font = inp.p.get('font')
    inp.call('draw', S.draw_scale, ax, pos=pos, padx=padx, pady=pady, font_size=font, units=units, zorder=7,
             **(dict(bar_length=length, divisions=div) if length else {}))
    inp.reach('place')
    import matplotlib
    font = inp.const(str(font or matplotlib.rcParams['font.size']))
    labels = [d for d in ax.drawn if d[0] == 'text' and d[3] != units]
    title = [d for d in ax.drawn if d[0] == 'text' and d[3] == units]
    fills = [d for d in ax.drawn if d[0] == 'fill']
    lines = [d for d in ax.drawn if d[0] == 'line']
    if not length:
        # the length nearest to a quarter of the map, with its number of divisions
        table = {4: 4, 10: 2, 12: 4, 15: 3, 20: 4, 30: 3, 40: 4, 75: 3, 100: 4, 120: 4, 150: 3, 200: 4, 240: 6, 300: 6, 400: 4, 600: 6, 750: 3, 1000: 4,
                 2000: 4, 4000: 4, 6000: 6, 10000: 4, 20000: 4, 40000: 4, 60000: 6, 75000: 3, 100000: 4, 200000: 4}
        length = max(float(d[3]) for d in labels)
        inp.check(length in table, lambda: f'length {length}')
        length = int(length)
        div = table[length]
        quarter = width * unit / inp.const(mpu[units]) / 4
        mine = abs(quarter - length)
        inp.check(inp.all([mine <= abs(quarter - other) * (1 + 1e-9) + 1e-9 for other in table]), lambda: f'length {length} for a quarter of {quarter}')
    data = inp.const(str(length)) * inp.const(mpu[units]) / unit
    tol = 1e-6 * (1 + (float(length) if not inp.symbolic else length))
    fx, fy = fig.size[0] * 72 * rect[2], fig.size[1] * 72 * rect[3]
    bar_h = font * inp.const('3/4') / fy * height
    left = x0 + padx * width if pos[1] == 'l' else x0 + width - padx * width - data
    bottom = y0 + pady * height if pos[0] == 'l' else y0 + height - pady * height - bar_h
    near = lambda a, b: inp.close(a, b, 1e-6 * 1000) if kind != 'plate' else inp.close(a, b, 1e-6)
    inp.check(len(fills) == div, lambda: f'{len(fills)} boxes for {div} divisions')
    for i, (_, xs, ys, a, kw) in enumerate(fills):
        l, r = left + data * i / div, left + data * (i + 1) / div
        want = [l, r, r, l, l]
        inp.check(inp.all([near(p, q) for p, q in zip(xs, want)]), lambda: f'box {i} at {xs} expected {want}')
        inp.check(inp.all([inp.any([near(y, bottom), near(y, bottom + bar_h)]) for y in ys]) and
                  inp.all([near(ys[0], ys[1]), near(ys[2], ys[3]), near(abs(ys[0] - ys[2]), bar_h), near(ys[4], ys[0])]), lambda: f'box {i} at heights {ys}')
    colours = [d[3][0] for d in fills]
    inp.check(all(a != b for a, b in zip(colours, colours[1:])) and set(colours) == {'white', 'black'}, lambda: f'colours {colours}')
    inp.check(len(title) == 1 and near(title[0][1], left + data / 2) and title[0][2] >= bottom + bar_h and title[0][4].get('ha') == 'center', 'units')
    ticks = [0, div] if div % 2 else list(range(0, div + 1, 2))
    got = {}
    for d in labels:
        f = Fraction(d[3]) / Fraction(str(length)) * div
        i = round(f)
        inp.check(abs(f - i) < Fraction(1, 10 ** 6) and i in ticks and i not in got, lambda: f'label {d[3]} on a bar of {length}')
        got[i] = d
        inp.check(near(d[1], left + data * i / div) and d[2] < bottom and d[4].get('ha') == 'center' and d[4].get('va') == 'top', lambda: f'label {d[3]} at {d[1]}')
    inp.check(sorted(got) == ticks, lambda: f'labels {sorted(got)} of {ticks}')
    marks = [d for d in lines if len(d[1]) == 2]
    inp.check(len(marks) == len(ticks), lambda: f'{len(marks)} ticks')
    for i, (_, xs, ys, a, kw) in zip(ticks, marks):
        inp.check(near(xs[0], left + data * i / div) and near(xs[1], xs[0]), lambda: f'tick at {xs}')
        inp.check(inp.any([inp.all([near(ys[0], bottom), ys[1] < ys[0]]), inp.all([near(ys[1], bottom), ys[0] < ys[1]])]), lambda: f'tick {ys}')
        inp.check(inp.all([got[i][2] <= y for y in ys]), 'label over tick')
    outline = [d for d in lines if len(d[1]) > 2]
    inp.check(len(outline) == 1 and inp.all([inp.any([near(x, left), near(x, left + data)]) for x in outline[0][1]] +
                                            [inp.any([near(y, bottom), near(y, bottom + bar_h)]) for y in outline[0][2]]), 'outline')
    inp.check(all(d[-1].get('zorder') == 7 for d in ax.drawn), 'order')
    inp.check(all(d[4].get('fontsize') is not None and inp.close(d[4]['fontsize'], font, 1e-9) for d in labels + title), 'font')


def wrong(inp):
    """refused arguments"""
    S = inp.mod('impactutils.mapping.scalebar')
    X = inp.mod('impactutils.exceptions')
    ax = axes(inp, (0, 100000, 0, 100000), Fig(8, 6), (0, 0, 1, 1), Proj('m'))
    kind = inp.choice('kind', ['length', 'divisions', 'range', 'units', 'pos', 'axes'])
    want = ValueError
    kw, on = {}, ax
    if kind == 'length':
        kw, want = dict(bar_length=inp.real('len', 1, 1000)), X.RequiredArgumentError
    elif kind == 'divisions':
        kw, want = dict(divisions=inp.int('div', 0, 10)), X.RequiredArgumentError
    elif kind == 'range':
        d = inp.int('div', -3, 12)
        inp.assume(inp.any([d < 2, d > 6]))
        kw = dict(bar_length=20, divisions=d)
    elif kind == 'units':
        u = inp.string('u', 0, 4, 'kmi-xus')
        inp.assume(inp.all([u != k for k in ('km', 'm', 'mm', 'kmi', 'mi', 'us-mi')]))
        kw = dict(units=u)
    elif kind == 'pos':
        u = inp.string('p', 0, 3, 'lurx')
        inp.assume(inp.all([u != k for k in ('ll', 'lr', 'ul', 'ur')]))
        kw = dict(pos=u)
    else:
        on = inp.choice('on', [None, 5, 'axes'])
    r, e = inp.raises(S.draw_scale, on, **kw)
    inp.reach('wrong')
    inp.check(isinstance(e, want), lambda: f'{kind}: {r} {e!r}')
    inp.check(ax.drawn == [], 'drew something')


R = ('1/10', '1/5', '4/5', '1/2')
A = [dict(kind='m', pos=p, width=('10000', '900000'), bar=b, **k) for p, b, k in (
     ('ll', (20, 4), {}), ('ur', (7.5, 3), dict(rect=R, size=1, font=12)), ('lr', (5, 4), dict(units='mi', rect=R)), ('ul', (100, 6), dict(units='us-ft', font=6)),
     ('lr', (25, 5), dict(units='yd')), ('ul', (1, 2), {}))]
A += [dict(kind='m', pos='ll', width=('1000', '5000000')), dict(kind='mercator', pos='ur', width=('1000', '3000000'), units='mi', rect=R),
      dict(kind=None, pos='lr', width=('10', '4000000'), units='ft'), dict(kind='us-ft', pos='ul', width=('1000', '3000000'), units='kmi'),
      dict(kind='km', pos='ll', width=('1', '2000'), units='m'),
      dict(kind='plate', pos='ll', width=('1', '50'), bar=(100, 4)), dict(kind='plate', pos='ur', width=('1', '20'), rect=R)]

HARNESSES = [
    H(place, quick=A, reach=['place'], obj_arrays=True, max_paths=3000, bounds='every map extent, padding and figure size; four corners, six bar lengths and the default ones'),
    H(wrong, quick=[{}], reach=['wrong'], bounds='every missing or wrong argument, texts of at most 4 letters'),
]
ASSUMPTIONS = ['axes and their transformations are an affine model, the same in symbolic runs and replays']
