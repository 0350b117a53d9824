"""Lists of cities: limiting, gridding, sorting, reading."""
import os

import numpy as np
import pandas as pd

from sx import flat
from sx.harness import H
from props.C30 import Text

NAMES = ['Alder', 'Birch Bay', 'Cedar', 'Alder Point']


def setup(inp):
    eg = inp.mod('impactutils.extern.openquake.geodetic')
    flat.SYM[0] = inp.symbolic

    def dist(lons1, lats1, lons2, lats2, *a):
        return flat.geodetic_distance(*[np.asarray(v) if hasattr(v, 'values') else v for v in (lons1, lats1, lons2, lats2)])
    inp.stub(eg, 'geodetic_distance', dist)
    return inp.mod('impactutils.mapping.city')


def column(inp, vals):
    return np.array(vals, dtype=object) if inp.symbolic else vals


def frame(inp, n, extra=True, pop=True, place=None):
    rows = []
    for i in range(n):
        la, lo = place(i) if place else (inp.real(f'lat{i}', -90, 90), inp.real(f'lon{i}', -180, 180))
        r = dict(name=NAMES[i], lat=la, lon=lo)
        if pop:
            r['pop'] = inp.int(f'pop{i}', 0, inp.p.get('pops', 10 ** 7))
        if extra:
            r['iscap'] = bool(i % 2)
        rows.append(r)
    cols = {k: column(inp, [r[k] for r in rows]) for k in rows[0]}
    return rows, pd.DataFrame(cols, index=[10 + 3 * i for i in range(n)] if inp.p.get('index') else None)


def holds(inp, df, rows, keep, what):
    """the data frame holds exactly those rows, in order"""
    want = [r for r, k in zip(rows, keep) if k]
    inp.check(list(df.columns) == list(rows[0]), lambda: f'{what}: columns {list(df.columns)}')
    inp.check(len(df) == len(want), lambda: f'{what}: {len(df)} cities, expected {[w["name"] for w in want]}')
    for i, w in enumerate(want):
        for c in w:
            inp.check(df[c].iloc[i] == w[c], lambda: f'{what}: {c} of city {i} is {df[c].iloc[i]}, expected {w[c]}')


def truth(b):
    return True if b else False


def limits(inp):
    """box, radius, population, name"""
    M = setup(inp)
    rows, df = frame(inp, inp.p['n'])
    c = inp.call('construct', M.Cities, df)
    what = inp.p['what']
    if what == 'box':
        x0, x1, y0, y1 = b = [inp.real(k, -180, 180) for k in ('x0', 'x1', 'y0', 'y1')]
        keep = [truth(inp.all([x0 < r['lon'], r['lon'] <= x1, y0 < r['lat'], r['lat'] <= y1])) for r in rows]
        got = inp.call('limit', c.limitByBounds, list(b) if inp.p.get('list') else tuple(b))
    elif what == 'radius':
        la, lo, rad = inp.real('la', -90, 90), inp.real('lo', -180, 180), inp.real('rad', 0, 20000)
        d2 = [((r['lon'] - lo) * (r['lon'] - lo) + (r['lat'] - la) * (r['lat'] - la)) * (flat.KM * flat.KM) for r in rows]
        # not decided on the circle itself
        for d in d2:
            inp.assume(inp.any([d < rad * rad - 1e-3, d > rad * rad + 1e-3]))
        keep = [truth(d <= rad * rad) for d in d2]
        got = inp.call('limit', c.limitByRadius, la, lo, rad)
    elif what == 'pop':
        p = inp.int('p', 1, 10 ** 7)
        keep = [truth(r['pop'] >= p) for r in rows]
        got = inp.call('limit', c.limitByPopulation, p)
        m = inp.int('m', 0, 10 ** 7)
        r, e = inp.raises(c.limitByPopulation, p, minpop=m)
        inp.check(inp.implies(m >= p, isinstance(e, ValueError)) and inp.implies(m < p, e is None), lambda: f'minimum {m} of {p}: {e!r}')
    else:
        s = inp.choice('pat', ['Alder', 'Birch Bay', 'd', 'Zoo', 'r$', 'A.*t'])
        keep = [k in {'Alder': (0, 3), 'Birch Bay': (1,), 'd': (0, 2, 3), 'Zoo': (), 'r$': (0, 2), 'A.*t': (3,)}[s] for k in range(len(rows))]
        got = inp.call('limit', c.limitByName, s)
    inp.reach('limits')
    inp.check(type(got) is M.Cities and got is not c, 'new object')
    holds(inp, got._dataframe, rows, keep, what)
    inp.check(inp.call('len', len, got) == sum(keep) and got.len() == sum(keep), 'length')
    holds(inp, c._dataframe, rows, [True] * len(rows), 'original')
    holds(inp, df, rows, [True] * len(rows), 'argument')
    if what == 'box' and any(keep):
        b = got.getBounds()
        kept = [r for r, k in zip(rows, keep) if k]
        for j, (key, sign) in enumerate((('lon', 1), ('lon', -1), ('lat', 1), ('lat', -1))):
            inp.check(inp.any([b[j] == r[key] for r in kept]) and inp.all([sign * (r[key] - b[j]) >= 0 for r in kept]), lambda: f'bounds {b}')
        la, lo, na = got.getCities()
        inp.check([len(x) for x in (la, lo, na)] == [len(kept)] * 3 and
                  inp.all([la[i] == k['lat'] and lo[i] == k['lon'] and na[i] == k['name'] for i, k in enumerate(kept)]), lambda: f'cities {la} {lo} {na}')


def grid(inp):
    """the most populous cities of every cell"""
    M = setup(inp)
    n, nx, ny = inp.p['n'], inp.p['nx'], inp.p['ny']
    if inp.p.get('line') == 'lon':
        one = inp.real('lat', -90, 90)
        place = lambda i: (one, inp.real(f'lon{i}', -180, 180))
    elif inp.p.get('line') == 'lat':
        one = inp.real('lon', -180, 180)
        place = lambda i: (inp.real(f'lat{i}', -90, 90), one)
    else:
        place = None
    rows, df = frame(inp, n, place=place)
    c = M.Cities(df)
    k = inp.p['k']
    got = inp.call('grid', c.limitByGrid, nx=nx, ny=ny, cities_per_grid=k)
    inp.reach('grid')
    lo = [min(r[key] for r in rows) if not inp.symbolic else least(r[key] for r in rows) for key in ('lon', 'lat')]
    hi = [max(r[key] for r in rows) if not inp.symbolic else most(r[key] for r in rows) for key in ('lon', 'lat')]

    def cell(r):
        out = []
        for key, a, b, m in (('lon', lo[0], hi[0], nx), ('lat', lo[1], hi[1], ny)):
            j = 0
            while j < m - 1 and (r[key] - a) * m > (b - a) * (j + 1):
                j += 1
            out.append(j)
        return tuple(out)
    cells = [cell(r) for r in rows]
    names = list(got._dataframe['name'])
    inp.check(len(set(names)) == len(names), lambda: f'repeated {names}')
    kept = [r['name'] in names for r in rows]
    for q in set(cells):
        ins = [i for i in range(n) if cells[i] == q]
        m = [i for i in ins if kept[i]]
        inp.check(len(m) == min(k, len(ins)), lambda: f'{len(m)} of {len(ins)} cities kept in cell {q}')
        inp.check(inp.all([rows[i]['pop'] >= rows[j]['pop'] for i in m for j in ins if not kept[j]]), lambda: f'larger city dropped in cell {q}')
    g = got._dataframe
    inp.check(list(g.columns) == list(df.columns), 'columns')
    for i in range(len(g)):
        r = rows[NAMES.index(names[i])]
        inp.check(inp.all([g[c].iloc[i] == r[c] for c in r]), lambda: f'values of {names[i]}')
    holds(inp, c._dataframe, rows, [True] * n, 'original')


def least(vals):
    vals = list(vals)
    m = vals[0]
    for v in vals[1:]:
        m = v if v < m else m
    return m


def most(vals):
    vals = list(vals)
    m = vals[0]
    for v in vals[1:]:
        m = v if v > m else m
    return m


def sort(inp):
    """sorted by columns"""
    M = setup(inp)
    n = inp.p['n']
    rows, df = frame(inp, n)
    c = M.Cities(df)
    by, up = inp.p['by'], inp.p.get('up', True)
    inp.call('sort', c.sortByColumns, by, **({} if up is True and inp.p.get('plain') else dict(ascending=up)))
    inp.reach('sort')
    g = c._dataframe
    names = list(g['name'])
    inp.check(sorted(names) == sorted(r['name'] for r in rows), lambda: f'cities {names}')
    out = [rows[NAMES.index(x)] for x in names]
    for i, r in enumerate(out):
        inp.check(inp.all([g[k].iloc[i] == r[k] for k in r]), lambda: f'values of {names[i]}')
    keys = [by] if isinstance(by, str) else by
    ups = up if isinstance(up, list) else [up] * len(keys)

    def ordered(a, b):
        for k, u in zip(keys, ups):
            if a[k] != b[k]:
                return truth(a[k] < b[k]) == u
        return True
    inp.check(all(ordered(a, b) for a, b in zip(out, out[1:])), lambda: f'order {names}')
    r, e = inp.raises(c.sortByColumns, ['pop', 'size'] if not isinstance(by, str) else 'size')
    inp.check(isinstance(e, KeyError), lambda: f'unknown column: {e!r}')
    holds(inp, df, rows, [True] * n, 'argument')


def columns(inp):
    """required and optional columns"""
    M = setup(inp)
    have = [k for k in ('name', 'lat', 'lon', 'pop', 'xoff') if inp.flag(k)]
    df = pd.DataFrame({k: column(inp, [inp.int(f'v{k}', 0, 9)]) for k in have})
    cls = M.Cities if inp.p['cls'] == 'city' else inp.mod('impactutils.mapping.mapcity').MapCities
    c, e = inp.raises(cls, df)
    inp.reach('columns')
    ok = all(k in have for k in ('name', 'lat', 'lon'))
    if not ok:
        inp.check(isinstance(e, KeyError), lambda: f'columns {have}: {e!r}')
        return
    inp.check(e is None and c.getColumns() == have, lambda: f'columns {have}: {e!r}')
    d = c.getDataFrame()
    d['lat'] = [99]
    df['lon'] = [99]
    inp.check(c._dataframe['lat'].iloc[0] != 99 and c._dataframe['lon'].iloc[0] != 99, 'shares its data')
    if 'pop' not in have:
        for f in (lambda: c.limitByPopulation(5), lambda: c.limitByGrid()):
            r, e = inp.raises(f)
            inp.check(isinstance(e, KeyError), lambda: f'no population: {e!r}')
    else:
        inp.check(len(inp.call('population', c.limitByPopulation, 100)) == 0, 'population')


DIG = '0123456789'


def geonames(inp):
    """one city per line of a GeoNames file"""
    M = setup(inp)
    name = os.path.join(inp.scratch(), 'cities.txt')
    lines, want = [], []
    d = lambda k: inp.string(k, 1, 1, DIG)
    for i in range(inp.p['n']):
        kind = inp.p['kinds'][i]
        nm = inp.string(f'nm{i}', 1, 2, ''.join(chr(k) for k in range(33, 127))) if kind != 'blank' else ''
        if kind == 'latin':
            nm = nm + '\xe9'
        lat = inp.p.get('sign', '') + d(f'a{i}') + '.' + d(f'b{i}') + d(f'c{i}')
        lon = '-' + d(f'd{i}') + d(f'e{i}') + '.' + d(f'f{i}')
        pop = d(f'p{i}') + d(f'q{i}') + '00'
        code = inp.choice(f'code{i}', ['PPLC', 'PPLA', 'PPL', 'PPLA2', ''])
        cc = inp.string(f'cc{i}', 2, 2, 'ABCDEFGHIJKLMNOPQRSTUVWXYZ')
        f = [str(i), 'x\xe9', nm, 'alt,names', lat, lon, 'P', code, cc, '', '01', '', '', '', pop, '', '7', 'Zone/Name', '2020-01-01']
        t = f[0]
        for x in f[1:]:
            t = t + '\t' + x
        lines.append(t + '\n')
        if kind == 'ascii':
            want.append(dict(name=nm, ccode=cc, lat=inp.parse_float(lat), lon=inp.parse_float(lon), iscap=code in ('PPLC', 'PPLA'), pop=inp.parse_int(pop)))
    text = lines[0]
    for t in lines[1:]:
        text = text + t
    if inp.symbolic:
        import builtins

        def op(p, mode='r', *a, **k):
            if p != name:
                raise OSError(p)
            return Text(inp, text)
        inp.override(builtins.open, op)
    else:
        with open(name, 'w', encoding='latin-1', newline='') as f:
            f.write(text)
    c = inp.call('read', M.Cities.fromGeoNames, name)
    inp.reach('geonames')
    g = c._dataframe
    inp.check(len(g) == len(want), lambda: f'{len(g)} cities of {want}')
    inp.check(sorted(g.columns) == ['ccode', 'iscap', 'lat', 'lon', 'name', 'pop'], 'columns')
    for i, w in enumerate(want):
        for k, v in w.items():
            x = g[k].iloc[i]
            inp.check(inp.close(x, v, 1e-9) if k in ('lat', 'lon') else x == v, lambda: f'{k} of city {i} is {x!r}, expected {v!r}')


def projected(inp):
    """map coordinates come from the projection"""
    M = setup(inp)
    rows, df = frame(inp, 2)
    c = M.Cities(df)
    a, b = inp.real('a', -5, 5), inp.real('b', -5, 5)
    inp.call('project', c.project, lambda x, y: (x * a, y + b))
    inp.reach('project')
    g = c._dataframe
    inp.check(inp.all([inp.close(g['x'].iloc[i], r['lon'] * a) and inp.close(g['y'].iloc[i], r['lat'] + b) for i, r in enumerate(rows)]), 'coordinates')
    holds(inp, df, rows, [True, True], 'argument')


L = [dict(what=w, n=2) for w in ('box', 'radius', 'pop')] + [dict(what='pop', n=3, index=1), dict(what='name', n=4), dict(what='box', n=1, list=1),
                                                               dict(what='radius', n=1)]
G = [dict(n=2, nx=2, ny=2, k=1), dict(n=3, nx=3, ny=1, k=1, line='lon'), dict(n=3, nx=1, ny=2, k=2, line='lat'), dict(n=3, nx=2, ny=1, k=2),
     dict(n=1, nx=2, ny=3, k=1), dict(n=2, nx=1, ny=1, k=1)]
S = [dict(n=3, by='pop', plain=1), dict(n=3, by='lat', up=False), dict(n=3, by=['iscap', 'pop'], up=[True, False], pops=2), dict(n=3, by=['pop', 'iscap'], pops=2)]
N = [dict(n=1, kinds=['ascii']), dict(n=2, kinds=['latin', 'ascii'], sign='-'), dict(n=2, kinds=['blank', 'ascii'])]

HARNESSES = [
    H(limits, quick=L, bounds='1..3 cities anywhere, every box, circle and population', reach=['limits'], obj_arrays=True, max_paths=4000),
    H(grid, quick=G, thorough=G + [dict(n=3, nx=2, ny=2, k=1)], bounds='1..3 cities anywhere, grids of up to 3 cells, 1 or 2 cities per cell', reach=['grid'],
      obj_arrays=True, max_paths=4000),
    H(sort, quick=S, bounds='3 cities; by two columns, populations 0..2', reach=['sort'], obj_arrays=True),
    H(columns, quick=[dict(cls='city'), dict(cls='map')], bounds='every subset of five columns', reach=['columns'], obj_arrays=True),
    H(geonames, quick=N, bounds='files of 1..2 lines, every digit, names of 1..2 characters', reach=['geonames'], obj_arrays=True),
    H(projected, quick=[{}], bounds='2 cities, affine projections', reach=['project'], obj_arrays=True),
]
ASSUMPTIONS = ['flat-Earth chart for distances; pandas itself runs natively on columns of symbolic values']
