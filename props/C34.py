"""Ruptures known as a point only."""
import numpy as np

from sx import flat
from sx.harness import H
from props import rupt

REGIONS = [None, 'Active Shallow Crust', 'Stable Shallow Crust', 'Subduction', 'Volcanic']
# region, mechanism -> scaling relation, mechanism, dip range, aspect ratio
TABLE = {('Active Shallow Crust', 'RS'): ('HB08', 'R', 35, 50, 1.7), ('Active Shallow Crust', 'NM'): ('HB08', 'N', 40, 60, 1.7),
         ('Active Shallow Crust', 'SS'): ('HB08', 'SS', 75, 90, 1.7), ('Active Shallow Crust', 'ALL'): ('WC94', 'A', 10, 90, 1.7),
         ('Stable Shallow Crust', 'RS'): ('S14', 'R', 30, 60, 1.0), ('Stable Shallow Crust', 'NM'): ('S14', 'N', 40, 60, 1.0),
         ('Stable Shallow Crust', 'SS'): ('S14', 'SS', 60, 90, 1.0), ('Stable Shallow Crust', 'ALL'): ('S14', 'A', 10, 90, 1.0)}


def arr(inp, vals, shape=None):
    a = np.array(vals, dtype=object if inp.symbolic else float)
    return a if shape is None else a.reshape(shape)


def interp1d(x, y, kind='linear', copy=True, assume_sorted=False, **k):
    """piecewise linear rows of y over x"""
    def f(v):
        out = np.empty((y.shape[0],) + v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            p = v[i]
            if p < x[0] or p > x[-1]:
                raise ValueError('A value in x_new is outside the interpolation range.')
            j = 0
            while j < len(x) - 2 and p > x[j + 1]:
                j += 1
            for r in range(y.shape[0]):
                out[(r,) + i] = y[r, j] + (y[r, j + 1] - y[r, j]) * (p - x[j]) / (x[j + 1] - x[j])
        return out
    return f


def start(inp):
    flat.install(inp)
    import ps2ff.run as run
    import scipy.interpolate as spint
    import logging
    logging.disable(logging.CRITICAL)
    seen = []

    def adjust(mag, depth, **k):
        lo, hi = k['min_repi'], k['max_repi']
        repi = arr(inp, [lo, (lo + hi) / 2, hi])
        t = {n: [inp.real(f'{n}{i}', 0, 100) for i in range(3)] for n in ('jb', 'rup', 'jbv', 'rupv')}
        seen.append((mag, depth, k, t))
        return (repi,) + tuple(arr(inp, t[n]) for n in ('jb', 'rup', 'jbv', 'rupv'))
    inp.stub(run, 'single_event_adjustment', adjust)
    if inp.symbolic:
        inp.stub(spint, 'interp1d', interp1d)
    return inp.mod('impactutils.rupture.point_rupture').PointRupture, seen


def source(inp, **kw):
    lat, lon = inp.real('lat', -1, 1), inp.real('lon', -1, 1)
    dep, mag = inp.real('depth', 0, 60), inp.real('mag', 3, 9)
    o = rupt.origin(inp, lat=lat, lon=lon, depth=dep, mag=mag, **kw)
    return o, (lon, lat, dep, mag)


def distances(inp):
    P, seen = start(inp)
    mech, region = inp.p['mech'], inp.p['region']
    o, (lon, lat, dep, mag) = source(inp, **({} if mech is None else {'mech': mech}))
    if region is not None:
        o._tectonic_region = region
    r = inp.call('construct', P, o)
    shape = inp.p.get('shape', (1,))
    n = int(np.prod(shape))
    sites = [[inp.real(f'x{i}', -1, 1), inp.real(f'y{i}', -1, 1), inp.const('0')] for i in range(n)]
    args = [arr(inp, [s[k] for s in sites], shape) for k in range(3)]
    what = inp.p['what']
    d, v = inp.call(what, r.computeRjb if what == 'rjb' else r.computeRrup, *args)
    inp.reach('distances')
    inp.check(len(seen) == 1, lambda: f'{len(seen)} calls of the adjustment')
    m, z, k, tables = seen[0]
    inp.check(inp.all([m == mag, z == dep]), lambda: f'magnitude {m}, depth {z} of {mag}, {dep}')
    want = TABLE.get((region, mech or 'ALL'), ('WC94', 'A', 10, 90, 1.7))
    import math
    ok = [k['mag_scaling'].name == want[0], k['mechanism'].name == want[1],
          inp.close(k['min_dip'], math.radians(want[2])), inp.close(k['max_dip'], math.radians(want[3])), k['ar'] == want[4]]
    inp.check(inp.all(ok), lambda: f'{k} expected {want}')
    epis = []
    for s in sites:
        q = inp.call('repi', r.computeRepi, arr(inp, [s[0]]), arr(inp, [s[1]]), arr(inp, [s[2]]))[0]
        epis.append(q)
    # every site lies within the tabulated range and gets the tabulated value there
    inp.check(inp.all([inp.any([k['min_repi'] <= q, q < 1e-4]) for q in epis] + [k['max_repi'] >= q for q in epis]
                      + [k['min_repi'] > 0]), lambda: f'range {k["min_repi"]}..{k["max_repi"]} for {epis}')
    inp.check(d.shape == tuple(shape) and v.shape == tuple(shape), lambda: f'shapes {d.shape} {v.shape} for {shape}')
    names = ('jb', 'jbv') if what == 'rjb' else ('rup', 'rupv')
    lo, hi = k['min_repi'], k['max_repi']
    mid = (lo + hi) / 2
    for q, a, b in zip(epis, list(d.reshape(-1)), list(v.reshape(-1))):
        q = 0.0001 if q < 0.0001 else q
        for name, got in zip(names, (a, b)):
            t = tables[name]
            f = (q - lo) / (mid - lo) if q <= mid else (q - mid) / (hi - mid)
            e = t[0] + (t[1] - t[0]) * f if q <= mid else t[1] + (t[2] - t[1]) * f
            inp.check(inp.close(got, e, 1e-4), lambda: f'{what} {name}: {got} expected {e}')


def facts(inp):
    """what is known of the source is passed on, the rest has its defaults"""
    P, seen = start(inp)
    kw = {}
    if inp.p.get('rake'):
        kw['rake'] = inp.real('rake', -180, 180)
    if inp.p.get('mech'):
        kw['mech'] = inp.p['mech']
    o, (lon, lat, dep, mag) = source(inp, **kw)
    ref = inp.string('ref', 0, 3, 'ab ')
    r = inp.call('construct', P, o, ref)
    inp.reach('facts')
    inp.check(r.getReference() == ref and r.getOrigin() is o, lambda: f'reference {r.getReference()}')
    inp.check(r.getLength() is None and r.getArea() is None and r.getQuadrilaterals() is None, 'length, area')
    inp.check(inp.all([r.lats == lat, r.lons == lon, r.depths == dep]), lambda: f'{r.lats} {r.lons} {r.depths}')
    inp.check(inp.all([r.getWidth() == 0, r.getStrike() == 0, r.getDip() == 90, r.getDepthToTop() == 0]),
              lambda: f'{r.getWidth()} {r.getStrike()} {r.getDip()} {r.getDepthToTop()}')
    g = r._geojson['features'][0]['geometry']
    inp.check(g['type'] == 'Point' and inp.all([a == b for a, b in zip(g['coordinates'], (lon, lat, dep))]), lambda: f'{g}')
    md = r._geojson['metadata']
    inp.check(inp.all([md['reference'] == ref, md['mag'] == mag, md['lat'] == lat, md['lon'] == lon, md['depth'] == dep,
                       md['id'] == o.id, md['time'] == '2000-01-02T03:04:05.000006Z']), lambda: f'metadata {md}')
    c = inp.call('context', r.getRuptureContext, [])
    inp.check(inp.all([c.mag == mag, c.hypo_lat == lat, c.hypo_lon == lon, c.hypo_depth == dep, c.strike == 0, c.dip == 90,
                       c.ztor == 0, c.width == 0]), lambda: f'context {vars(c)}')
    want = kw['rake'] if 'rake' in kw else {'NM': -90.0, 'RS': 90.0}.get(inp.p.get('mech'), 0.0)
    inp.check(c.rake == want, lambda: f'rake {c.rake} expected {want}')
    shape = inp.p.get('shape', (2,))
    z = arr(inp, [inp.const('0')] * int(np.prod(shape)), shape)
    q = inp.call('gc2', r.computeGC2, z, z, z)
    inp.check(sorted(q) == ['T', 'U', 'rx', 'ry', 'ry0'] and all(v.shape == tuple(shape) for v in q.values())
              and inp.all([x == 0 for v in q.values() for x in list(v.reshape(-1))]), lambda: f'GC2 {q}')


D = [dict(mech=m, region=g, what=w) for m in (None, 'ALL', 'RS', 'NM', 'SS') for g in REGIONS for w in ('rjb', 'rrup')
     if w == 'rjb' or m in ('RS', None)]
D += [dict(mech='SS', region='Active Shallow Crust', what='rrup', shape=s) for s in ((2,), (2, 1))]
F = [dict(), dict(mech='SS'), dict(mech='NM', rake=1), dict(mech='RS', shape=(1, 2)), dict(mech='ALL'), dict(rake=1)]
HARNESSES = [
    H(distances, quick=D, bounds='every magnitude 3..9, depth 0..60 km, position of source and one or two sites, every '
      'combination of mechanism and tectonic region, every table of three values', reach=['distances'], obj_arrays=True),
    H(facts, quick=F, bounds='every origin within the same ranges, every rake', reach=['facts'], obj_arrays=True),
]
ASSUMPTIONS = ['the geodetic conversions are replaced by a flat chart of the Earth, in symbolic runs and replays alike',
               'the finite-fault adjustment (ps2ff) is replaced by an arbitrary table over the range asked for, and '
               'scipy interp1d in symbolic runs by exact piecewise-linear interpolation']
