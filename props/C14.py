"""City labels on a map: the largest ones that fit."""
import numpy as np
import pandas as pd

from sx.harness import H
from props.C13 import column

NAMES = ['Alder', 'Birch', 'Cedar']
SX, SY, Y0 = 100, 50, 200           # projected units per degree and northing of the equator
W, HT = 700, 500                    # figure in pixels


class Affine:
    def __init__(self, ax, back=False):
        self.ax, self.back = ax, back

    def inverted(self):
        return Affine(self.ax, not self.back)

    def transform(self, p):
        x0, x1, y0, y1 = self.ax.ext
        l, b, w, h = self.ax.box
        kx, ky = w / (x1 - x0), h / (y1 - y0)
        if self.back:
            return np.array([(p[0] - l) / kx + x0, (p[1] - b) / ky + y0], dtype=object)
        return np.array([(p[0] - x0) * kx + l, (p[1] - y0) * ky + b], dtype=object)


class Box:
    def __init__(self, x0, y0, x1, y1):
        self.extents = (x0, y0, x1, y1)
        self.x0, self.y0, self.x1, self.y1 = self.extents

    def transformed(self, t):
        a, b = t.transform((self.x0, self.y0)), t.transform((self.x1, self.y1))
        return Box(a[0], a[1], b[0], b[1])


class Label:
    def __init__(self, ax, x, y, s, kw):
        self.ax, self.x, self.y, self.s, self.kw, self.effects = ax, x, y, s, kw, None

    def set_path_effects(self, e):
        self.effects = e

    def get_window_extent(self, renderer=None, **k):
        w, h = self.ax.fig.sizes[self.s]
        p = self.ax.transData.transform((self.x, self.y))
        ha, va = self.kw.get('ha', 'left'), self.kw.get('va', 'baseline')
        l = p[0] - {'left': 0, 'center': w / 2, 'right': w}[ha]
        b = p[1] - {'bottom': 0, 'baseline': 0, 'center': h / 2, 'top': h}[va]
        return Box(l, b, l + w, b + h)


class Axes:
    def __init__(self, fig, rect, projection):
        self.fig, self.projection = fig, projection
        self.box = (rect[0] * W, rect[1] * HT, rect[2] * W, rect[3] * HT)
        self.labels, self.dots, self.ext = [], [], None
        self.transData = Affine(self)

    def set_extent(self, e, crs=None):
        x0, x1, y0, y1 = e
        if getattr(crs, 'kind', None) == 'plate':
            x0, x1, y0, y1 = x0 * SX, x1 * SX, y0 * SY + Y0, y1 * SY + Y0
        self.ext = (x0, x1, y0, y1)

    def get_extent(self, crs=None):
        return self.ext

    def text(self, x, y, s, **kw):
        t = Label(self, x, y, s, kw)
        self.labels.append(t)
        return t

    def plot(self, x, y, *a, **kw):
        self.dots.append((x, y, kw))


class Figure:
    made = []
    sizes = {}

    def __init__(self, figsize=None):
        self.sizes, self.figsize, self.axes = Figure.sizes, figsize, []
        self.canvas = self
        Figure.made.append(self)

    def get_renderer(self):
        return 'renderer'

    def draw(self):
        pass

    def add_axes(self, rect, projection=None):
        a = Axes(self, rect, projection)
        self.axes.append(a)
        return a


class Crs:
    def __init__(self, kind):
        self.kind = kind
        self.proj4_init = kind


def setup(inp, sizes):
    import cartopy.crs as ccrs
    import matplotlib.pyplot as plt
    import pyproj
    C = inp.mod('impactutils.mapping.city')
    M = inp.mod('impactutils.mapping.mercatormap')
    Figure.made, Figure.sizes = [], sizes
    inp.stub(ccrs, 'Mercator', lambda **k: Crs('mercator'))
    inp.stub(ccrs, 'PlateCarree', lambda **k: Crs('plate'))
    inp.stub(plt, 'figure', Figure)
    inp.stub(plt, 'sca', lambda a: None)
    inp.stub(pyproj, 'Proj', lambda s: (lambda lon, lat: (lon * SX, lat * SY + Y0)))
    return C, M


def labels(inp):
    n = inp.p['n']
    free = inp.p.get('free', range(n))
    sizes, rows = {}, []
    order = inp.p['order']           # ranks of the populations
    for i in range(n):
        lon = inp.real(f'lon{i}', -1, 11) if i in free else inp.const(('2', '5', '7')[i])
        lat = inp.real(f'lat{i}', -1, 11) if i in free and not inp.p.get('row') else inp.const(('5', '51/10', '26/5')[i])
        rows.append(dict(name=NAMES[i], lat=lat, lon=lon, pop=1000 * (1 + order[i])))
        sizes[NAMES[i]] = (inp.real(f'w{i}', 1, 400), inp.real(f'h{i}', 1, 100) if i in free else 20)
    C, M = setup(inp, sizes)
    df = pd.DataFrame({k: column(inp, [r[k] for r in rows]) for k in rows[0]})
    pad = inp.real('pad', 0, 2)
    rect = inp.p.get('rect', [0, 0, 1, 1])
    mm = inp.call('map', M.MercatorMap, (0, 10, 0, 10), (7, 5), C.Cities(df), padding=pad, **(dict(dimensions=rect) if 'rect' in inp.p else {}))
    kw = dict(fontname='Arial', fontsize=9.0, shadow=True, draw_dots=True, zorder=7) if inp.p.get('kw') else {}
    got = inp.call('draw', mm.drawCities, **kw)
    inp.reach('labels')
    # boxes of the labels on a full-size map of 0..1000 by 200..700
    px, py = inp.const('1000') / W, inp.const('500') / HT
    big = sorted([r for r in rows if inside(inp, r)], key=lambda r: -r['pop'])
    boxes, want = [], []
    for r in big:
        w, h = sizes[r['name']]
        w, h = w * px, h * py
        l, y = r['lon'] * SX + 4 * px, r['lat'] * SY + Y0
        b = (l - w * pad, l + w + w * pad, y - h / 2 - h * pad, y + h / 2 + h * pad)
        apart(inp, b[0], 0), apart(inp, b[1], 1000), apart(inp, b[2], 200), apart(inp, b[3], 700)
        if b[0] < 0 or b[1] > 1000 or b[2] < 200 or b[3] > 700:
            continue
        clear = True
        for c in boxes:
            apart(inp, b[0], c[1]), apart(inp, b[1], c[0]), apart(inp, b[2], c[3]), apart(inp, b[3], c[2])
            if not (b[0] > c[1] or b[1] < c[0] or b[2] > c[3] or b[3] < c[2]):
                clear = False
        boxes.append(b)
        if clear:
            want.append(r)
    ax = mm.axes
    names = [w['name'] for w in want]
    inp.check(isinstance(got, C.Cities) and list(got._dataframe['name']) == names, lambda: f'drew {list(got._dataframe["name"])}, expected {names}')
    inp.check([t.s for t in ax.labels] == names, lambda: f'labels {[t.s for t in ax.labels]}, expected {names}')
    for t, w in zip(ax.labels, want):
        inp.check(inp.close(t.x, w['lon'] * SX + 4 * px / rect[2], 1e-6) and inp.close(t.y, w['lat'] * SY + Y0, 1e-6), lambda: f'label of {t.s} at {t.x} {t.y}')
        inp.check((t.kw.get('fontname'), t.kw.get('fontsize'), t.kw.get('zorder'), bool(t.effects)) ==
                  (('Arial', 9.0, 7, True) if kw else ('DejaVu Sans', 10.0, 10, False)), 'style')
    inp.check(len(ax.dots) == (len(want) if kw else 0), 'dots')
    for (x, y, k), w in zip(ax.dots, want):
        inp.check(x == w['lon'] and y == w['lat'] and k['transform'].kind == 'plate', 'dot')
    inp.check(mm.getFigureClone() is not mm.figure and mm.getAxesClone() is not mm.axes and mm.getAxesClone() in mm.getFigureClone().axes and
              ax in mm.figure.axes, 'figures')
    g = got._dataframe
    for i, w in enumerate(want):
        inp.check(inp.all([g[k].iloc[i] == w[k] for k in w]), 'values')


def inside(inp, r):
    for v in (r['lon'], r['lat']):
        apart(inp, v, 0), apart(inp, v, 10)
    return True if inp.all([r['lon'] > 0, r['lon'] < 10, r['lat'] > 0, r['lat'] < 10]) else False


def apart(inp, a, b):
    """nothing is decided at equality"""
    inp.assume(inp.any([a < b - 1e-6, a > b + 1e-6]))


Q = [dict(n=1, order=[0]), dict(n=2, order=[0, 1], row=1), dict(n=2, order=[1, 0], free=[1], kw=1, rect=[0.25, 0.25, 0.5, 0.5]), dict(n=3, order=[2, 0, 1], free=[1]),
     dict(n=3, order=[0, 1, 2], free=[])]

HARNESSES = [
    H(labels, quick=Q, bounds='1..3 cities anywhere, labels of every size, every padding', reach=['labels'], obj_arrays=True, max_paths=6000),
]
ASSUMPTIONS = ['plotting library and map projection replaced by affine models, the same in symbolic runs and replays']
