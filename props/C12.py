"""Colour palettes: piecewise-linear colours of data values."""
import math
import os

import numpy as np

from sx.harness import H


class Cmap:
    """LinearSegmentedColormap without its N-level quantisation"""
    def __init__(self, name, segmentdata, N=256, gamma=1.0):
        self.name, self.N = name, N
        self.d = segmentdata
        self.bad = (0.0, 0.0, 0.0, 0.0)
        for k in ('red', 'green', 'blue'):
            xs = [r[0] for r in segmentdata[k]]
            if bool(xs[0] != 0) or bool(xs[-1] != 1):
                raise ValueError('data mapping points must start with x=0 and end with x=1')
            if any(bool(b < a) for a, b in zip(xs, xs[1:])):
                raise ValueError('data mapping points must have x in increasing order')

    def set_bad(self, color='k', alpha=None):
        self.bad = tuple(color)

    def one(self, x):
        if isinstance(x, float) and math.isnan(x):
            return self.bad
        out = []
        for k in ('red', 'green', 'blue'):
            rows = self.d[k]
            if x <= 0:
                c = rows[0][2]
            elif x >= 1:
                c = rows[-1][1]
            else:
                for a, b in zip(rows, rows[1:]):
                    if x < b[0]:
                        break
                c = a[2] + (x - a[0]) / (b[0] - a[0]) * (b[1] - a[2])
            c = 0.0 if c < 0 else (1.0 if c > 1 else c)
            out.append(c)
        return tuple(out) + (1.0,)

    def __call__(self, X, alpha=None, bytes=False):
        if isinstance(X, np.ndarray):
            o = np.empty(X.shape + (4,), dtype=object)
            for i in np.ndindex(X.shape):
                o[i] = self.one(X[i])
            return o
        return self.one(X)


def prepare(inp):
    if inp.symbolic:
        from matplotlib.colors import LinearSegmentedColormap
        inp.override(LinearSegmentedColormap, Cmap)
        inp.override(np.uint8, lambda a: np.vectorize(lambda v: inp.mod('sx.shims').b_int(v) if inp.is_sym(v) else int(v), otypes=[object])(a))
    return inp.mod('impactutils.colors.cpalette')


def want(inp, tab, v, slack):
    """hull of the colours of the data values within slack of v"""
    z0, z1, c0, c1 = tab
    n = len(z0)
    lo = hi = None

    def add(c):
        nonlocal lo, hi
        if lo is None:
            lo, hi = list(c), list(c)
        else:
            lo = [inp.ite(a < b, a, b) for a, b in zip(c, lo)]
            hi = [inp.ite(a > b, a, b) for a, b in zip(c, hi)]
    a, b = v - slack, v + slack
    if a <= z0[0]:
        add(c0[0])
    if b >= z1[-1]:
        add(c1[-1])
    for i in range(n):
        if b >= z0[i] and a <= z1[i]:
            for t in ((a, b) if slack else (a,)):
                t = z0[i] if t < z0[i] else (z1[i] if t > z1[i] else t)
                f = (t - z0[i]) / (z1[i] - z0[i])
                add([p + f * (q - p) for p, q in zip(c0[i], c1[i])])
    return lo, hi


def agree(inp, tab, v, got, slack, den=255.0, eps=1e-6):
    lo, hi = want(inp, tab, v, slack)
    return inp.all([inp.all([g >= l / den - eps, g <= h / den + eps]) for g, l, h in zip(got, lo, hi)])


ZS = {'uniform': [0, 1, 2, 3], 'wide': [-4, -1, 5, 6], 'frac': [0.5, 0.75, 2.0], 'one': [10, 30]}


def table(inp, zs, ncol=3):
    z = ZS[zs]
    n = len(z) - 1
    c0 = [tuple(inp.int(f'a{i}{k}', 0, 255) for k in range(ncol)) for i in range(n)]
    c1 = [tuple(inp.int(f'b{i}{k}', 0, 255) for k in range(ncol)) for i in range(n)]
    pad = (0,) * (3 - ncol)
    return [list(z[:-1]), list(z[1:]), [c + pad for c in c0], [c + pad for c in c1]]


def slack_of(inp, tab, cp):
    return 1e-6 if inp.symbolic else 2.0 * (tab[1][-1] - tab[0][0]) / cp.cmap.N


def colours(inp):
    P = prepare(inp)
    tab = table(inp, inp.p['z'], inp.p.get('ncol', 3))
    as_arrays = inp.flag('arrays')
    z0, z1 = (np.array(tab[0]), np.array(tab[1])) if as_arrays else (list(tab[0]), list(tab[1]))
    cp = inp.call('ctor', P.ColorPalette, 'name', z0, z1, list(tab[2]), list(tab[3]))
    inp.check(inp.all([cp.vmin == tab[0][0], cp.vmax == tab[1][-1]]), lambda: f'range {cp.vmin}..{cp.vmax}')
    v = inp.real('v', tab[0][0] - 5, tab[1][-1] + 5)
    got = inp.call('getDataColor', cp.getDataColor, v)
    inp.reach('colour')
    inp.check(len(got) == 4 and agree(inp, tab, v, got[:3], slack_of(inp, tab, cp)),
              lambda: f'colour of {v} is {got}, palette {tab}')
    inp.check(got[3] == 1.0, 'opaque')


def formats(inp):
    P = prepare(inp)
    tab = table(inp, 'one', 2)
    cp = inp.call('ctor', P.ColorPalette, 'name', list(tab[0]), list(tab[1]), list(tab[2]), list(tab[3]))
    # other data range, set afterwards
    k = inp.p['range']
    if k:
        cp.vmin, cp.vmax = k
        tab[0], tab[1] = [k[0]], [k[1]]
    v = inp.real('v', tab[0][0] - 1, tab[1][-1] + 1)
    m = inp.call('mlab', cp.getDataColor, v)
    inp.check(agree(inp, tab, v, m[:3], slack_of(inp, tab, cp)), lambda: f'colour of {v} is {m}, palette {tab}')
    m2 = inp.call('mlab', cp.getDataColor, v, color_format='mlab')
    inp.check(inp.all([a == b for a, b in zip(m, m2)]), 'default format')
    i = inp.call('255', cp.getDataColor, v, color_format='255')
    inp.reach('formats')
    inp.check(len(i) == 4 and inp.all([inp.all([x <= 255 * y + 1e-9, x > 255 * y - 1]) for x, y in zip(i, m)]),
              lambda: f'{m} as 255: {i}')
    h = inp.call('hex', cp.getDataColor, v, color_format='hex')
    inp.check(len(h) == 7 and h[0] == '#', lambda: f'hex {h}')
    dig = '0123456789ABCDEF'

    def hexval(c):
        r = -1
        for n, d in enumerate(dig):
            r = inp.ite(c == d, n, r)
        return r
    inp.check(inp.all([hexval(h[1 + 2 * n]) * 16 + hexval(h[2 + 2 * n]) == i[n] for n in range(3)]),
              lambda: f'hex {h} and 255 {i}')


def unknown(inp):
    P = prepare(inp)
    tab = table(inp, 'one', 1)
    cp = inp.call('ctor', P.ColorPalette, 'name', list(tab[0]), list(tab[1]), list(tab[2]), list(tab[3]))
    v = inp.real('v', tab[0][0] - 1, tab[1][-1] + 1)
    inp.reach('unknown')
    w = inp.string('fmt', 1, 4, 'mlabhex25')
    inp.assume(inp.all([inp.no(w == k) for k in ('mlab', '255', 'hex', 'array')]))
    r, e = inp.raises(cp.getDataColor, v, color_format=w)
    inp.check(isinstance(e, AttributeError), lambda: f'format {w}: {r!r} {e!r}')


def arrays(inp):
    P = prepare(inp)
    tab = table(inp, 'frac', 1)
    cp = inp.call('ctor', P.ColorPalette, 'name', list(tab[0]), list(tab[1]), list(tab[2]), list(tab[3]))
    vs = [inp.real(f'v{i}', 0, 3) for i in range(2)]
    a = np.empty(2, dtype=object) if inp.symbolic else np.empty(2)
    a[:] = vs
    if inp.flag('two_d'):
        a = a.reshape((2, 1))
    r = inp.call('array', cp.getDataColor, a, color_format='array')
    inp.reach('array')
    inp.check(r.shape == a.shape + (4,), lambda: f'shape {r.shape} for {a.shape}')
    r = r.reshape((2, 4))
    for i, v in enumerate(vs):
        one = cp.getDataColor(v, color_format='255')
        inp.check(inp.all([x == y for x, y in zip(r[i], one)]), lambda: f'array colour {r[i]}, single {one}')


def missing(inp):
    P = prepare(inp)
    tab = table(inp, 'one', 1)
    nan = tuple(inp.int(f'n{i}', 0, 255) for i in range(4))
    k = inp.choice('k', ['tuple', 'list', 'zero', 'none'])
    kw = {'tuple': dict(nan_color=nan), 'list': dict(nan_color=list(nan)), 'zero': dict(nan_color=0), 'none': {}}[k]
    if k in ('zero', 'none'):
        nan = (0, 0, 0, 0)
    cp = inp.call('ctor', P.ColorPalette, 'name', list(tab[0]), list(tab[1]), list(tab[2]), list(tab[3]), **kw)
    c = inp.call('nan', cp.getDataColor, float('nan'))
    inp.reach('nan')
    inp.check(inp.all([inp.close(a, b / 255.0) for a, b in zip(c, nan)]), lambda: f'missing-data colour {c}, asked {nan}')


def levels(inp):
    """enough colours to tell data a resolution apart"""
    P = prepare(inp)
    tab = table(inp, 'wide', 1)
    res = inp.dec('res', 0.001, 3, 3)
    cp = inp.call('ctor', P.ColorPalette, 'name', list(tab[0]), list(tab[1]), list(tab[2]), list(tab[3]), resolution=res)
    n = cp.cmap.N
    inp.reach('levels')
    inp.check(inp.all([n >= 256, n * res >= 10 - res - 1e-6]), lambda: f'{n} colours for range 10, resolution {res}')
    inp.check(inp.any([n <= 256, (n - 1) * res <= 10 + 1e-6]), lambda: f'{n} colours for range 10, resolution {res}')


def lengths(inp):
    P = prepare(inp)
    X = inp.mod('impactutils.exceptions')
    n = [inp.choice(f'n{i}', [1, 2, 3]) for i in range(4)]
    z = [0, 1, 2, 3]
    c = [(1, 2, 3), (4, 5, 6), (7, 8, 9)]
    r, e = inp.raises(P.ColorPalette, 'x', z[:n[0]], z[1:n[1] + 1], c[:n[2]], c[:n[3]])
    inp.reach('lengths')
    if len(set(n)) == 1:
        inp.check(e is None, lambda: f'lengths {n}: {e!r}')
    else:
        inp.check(isinstance(e, X.ConsistentLengthError), lambda: f'lengths {n}: {r!r} {e!r}')
    r, e = inp.raises(P.ColorPalette.fromColorMap, 'x', z[:n[0]], z[1:n[1] + 1], lambda t: (t, t, t, 1.0))
    inp.check((e is None) if n[0] == n[1] else isinstance(e, X.ConsistentLengthError),
              lambda: f'from colour map, lengths {n[:2]}: {e!r}')


MMI_C = [(255, 255, 255), (255, 255, 255), (191, 204, 255), (160, 230, 255), (128, 255, 255), (122, 255, 147),
         (255, 255, 0), (255, 200, 0), (255, 145, 0), (255, 0, 0), (200, 0, 0)]
G = [255, 191, 159, 127, 95, 63, 31, 0]
POP_Z = [0, 4, 49, 99, 499, 999, 4999, 9999, 50000]
TOPO_Z = [-100, 0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100, 9200]
TOPO_C = [(195, 255, 193), (110, 135, 80), (120, 160, 90), (230, 220, 110), (210, 170, 80), (195, 140, 100),
          (100, 80, 70), (60, 60, 60), (255, 255, 255), (255, 255, 255), (255, 128, 0), (255, 0, 0)]
PRESETS = {'mmi': [list(range(10)), list(range(1, 11)), MMI_C[:-1], MMI_C[1:]],
           'pop': [POP_Z[:-1], POP_Z[1:], [(g, g, g) for g in G], [(g, g, g) for g in G]],
           'shaketopo': [TOPO_Z[:-1], TOPO_Z[1:], TOPO_C[:-1], TOPO_C[1:]]}


def presets(inp):
    P = prepare(inp)
    X = inp.mod('impactutils.exceptions')
    inp.check(sorted(P.ColorPalette.getPresets()) == sorted(PRESETS), 'preset names')
    for again in range(2):      # using a preset leaves it as it was
        cp = inp.call('preset', P.ColorPalette.fromPreset, inp.p['name'])
    tab = PRESETS[inp.p['name']]
    v = inp.real('v', tab[0][0] - 5, tab[1][-1] + 5)
    c = inp.call('colour', cp.getDataColor, v)
    inp.reach('preset')
    inp.check(agree(inp, tab, v, c[:3], slack_of(inp, tab, cp)), lambda: f'{inp.p["name"]}: colour of {v} is {c}')
    w = inp.string('w', 1, 3, 'mipo')
    inp.assume(inp.all([inp.no(w == k) for k in PRESETS]))
    r, e = inp.raises(P.ColorPalette.fromPreset, w)
    inp.check(isinstance(e, X.UnsupportedArgumentError), lambda: f'preset {w}: {r!r} {e!r}')


def colormap(inp):
    """palette built from a colour map: its colours at the segment ends"""
    P = prepare(inp)
    z = ZS[inp.p['z']]
    k = inp.choice('k', [100, 37, 0])

    def cmap(t):
        return (t * k / 100.0, 1 - t * t * k / 100.0, 0.25, 1.0)
    log = inp.flag('log')
    cp = inp.call('fromColorMap', P.ColorPalette.fromColorMap, 'x', list(z[:-1]), list(z[1:]), cmap, is_log=log)
    v = inp.real('v', z[0], z[-1])
    arg = v
    if log:
        if inp.symbolic:
            arg = inp.real('exp_v', 0.0001)
            inp.override(np.log, lambda q: v if q is arg else bad(q))
            inp.override(math.log, lambda q: v if q is arg else bad(q))
            inp.override(np.log10, lambda q: v / math.log(10))
            inp.override(np.log2, lambda q: v / math.log(2))
        else:
            inp.real('exp_v', 0)
            arg = math.exp(v)
    c = inp.call('colour', cp.getDataColor, arg)
    inp.reach('cmap')
    n = z[-1] - z[0]
    tab = [z[:-1], z[1:], [[255 * q for q in cmap((a - z[0]) / n)[:3]] for a in z[:-1]],
           [[255 * q for q in cmap((a - z[0]) / n)[:3]] for a in z[1:]]]
    inp.check(agree(inp, tab, v, c[:3], slack_of(inp, tab, cp), eps=0.51 / 255), lambda: f'colour of {v} is {c}')


def bad(q):
    raise TypeError(f'log of {q!r}')


HEAD = ['# a comment\n#$nan_color: 10,20,30,40\n#$name: mine\n#$resolution: 0.01\n', '#plain\n',
        '#$resolution: 5\n#$name:x\n', '#$nan_color: 0, 0, 0, 255\n# more $name: no\n']
ROWS = [[(0, 0, 10, 20, 1, 85, 85, 85), (1, 85, 5, 85, 3, 170, 170, 170)], [(-1.5, 1, 2, 3, 4, 255, 254, 0)],
        [(0, 0, 0, 0, 1, 85, 85, 85), (1, 8, 8, 8, 2, 17, 17, 17), (2, 99, 98, 97, 4, 4, 5, 6)]]


def files(inp):
    P = prepare(inp)
    hi, ri = inp.choice('head', range(4)), inp.choice('rows', range(3))
    path = os.path.join(inp.scratch(), 'x.cpt')
    with open(path, 'w') as f:
        f.write(HEAD[hi] + 'Z0 R0 G0 B0  Z1 R1 G1 B1\n')
        for r in ROWS[ri]:
            f.write('  '.join(str(x) for x in r) + '\n')
    cp = inp.call('fromFile', P.ColorPalette.fromFile, path)
    rows = ROWS[ri]
    tab = [[r[0] for r in rows], [r[4] for r in rows], [r[1:4] for r in rows], [r[5:] for r in rows]]
    v = inp.real('v', -3, 6)
    c = inp.call('colour', cp.getDataColor, v)
    inp.reach('file')
    inp.check(agree(inp, tab, v, c[:3], slack_of(inp, tab, cp)), lambda: f'file {hi},{ri}: colour of {v} is {c}')
    nan = [(10, 20, 30, 40), (0,) * 4, (0,) * 4, (0, 0, 0, 255)][hi]
    c = inp.call('nan', cp.getDataColor, float('nan'))
    inp.check(inp.all([inp.close(a, b / 255.0) for a, b in zip(c, nan)]), lambda: f'file {hi}: missing-data colour {c}')
    inp.check(cp.cmap.name == ['mine', 'generic', 'x', 'generic'][hi], lambda: f'file {hi}: name {cp.cmap.name!r}')
    span = tab[1][-1] - tab[0][0]
    inp.check(cp.cmap.N >= max(256, span / [0.01, 1, 5, 1][hi] - 1), lambda: f'file {hi}: {cp.cmap.N} colours')


HARNESSES = [
    H(colours, quick=[dict(z=z, ncol=1 if z == 'frac' else 3) for z in ZS], bounds='up to 3 segments, every colour triple 0..255 per end, every data value in and around the range', reach=['colour']),
    H(unknown, bounds='format names of 1..4 letters', reach=['unknown']),
    H(formats, quick=[dict(range=r) for r in (None, (0, 100), (-1.5, 12))], bounds='one segment, data range reset, every colour and value', reach=['formats'], max_paths=2000),
    H(arrays, bounds='two values in 1-d and 2-d arrays', reach=['array']),
    H(missing, bounds='every missing-data colour', reach=['nan']),
    H(levels, bounds='resolutions 0.001..3 (3 decimals) over a range of 10', reach=['levels']),
    H(lengths, bounds='every combination of lengths 1..3 of the four sequences', reach=['lengths']),
    H(presets, quick=[dict(name=n) for n in PRESETS], bounds='every data value', reach=['preset'], max_paths=3000),
    H(colormap, quick=[dict(z=z) for z in ZS], bounds='three colour maps, every value, also logarithmic', reach=['cmap']),
    H(files, bounds='4 headers x 3 tables, every value', reach=['file']),
]
ASSUMPTIONS = ['the matplotlib colour map is modelled as exact piecewise-linear interpolation; replays run the real one and allow its quantisation (2/N of the range)',
               'segments are contiguous and increasing']
