"""Site distances: one entry point for every rupture and measure."""
import itertools

import numpy as np

from sx import flat
from sx.harness import H
from props import rupt

ALL = ['repi', 'rhypo', 'rjb', 'rrup', 'rx', 'ry', 'ry0', 'U', 'T', 'rvolc']
GC2 = ['rx', 'ry', 'ry0', 'U', 'T']


def arr(inp, vals, shape=None):
    a = np.array(vals, dtype=object if inp.symbolic else float)
    return a if shape is None else a.reshape(shape)


class Recorder:
    """a rupture whose answers are arbitrary"""

    def __init__(self, inp, shape):
        self.calls = []
        n = int(np.prod(shape))
        self.out = {k: arr(inp, [inp.real(f'{k}{i}', -99, 99) for i in range(n)], shape)
                    for k in ('rhypo', 'repi', 'rrup', 'rrup_var', 'rjb', 'rjb_var', *GC2)}

    def note(self, name, a):
        self.calls.append((name, a))

    def computeRhyp(self, lon, lat, depth):
        self.note('rhypo', (lon, lat, depth))
        return self.out['rhypo']

    def computeRepi(self, lon, lat, depth):
        self.note('repi', (lon, lat, depth))
        return self.out['repi']

    def computeRrup(self, lon, lat, depth):
        self.note('rrup', (lon, lat, depth))
        return self.out['rrup'], self.out['rrup_var']

    def computeRjb(self, lon, lat, depth):
        self.note('rjb', (lon, lat, depth))
        return self.out['rjb'], self.out['rjb_var']

    def computeGC2(self, lon, lat, depth):
        self.note('gc2', (lon, lat, depth))
        return {k: self.out[k] for k in GC2}


def equal(inp, a, b):
    return a.shape == b.shape and inp.all([x == y for x, y in zip(list(a.reshape(-1)), list(b.reshape(-1)))])


def sites(inp, shape, tag=''):
    n = int(np.prod(shape))
    return [arr(inp, [inp.real(f'{k}{tag}{i}', lo, hi) for i in range(n)], shape)
            for k, lo, hi in (('lat', -60, 60), ('lon', -120, 120), ('dep', 0, 100))]


def correct(inp, d, k, r):
    if k == 'rvolc':
        return inp.all([x == 0 for x in list(d[k].reshape(-1))])
    ok = [equal(inp, d[k], r.out[k])]
    if k in ('rrup', 'rjb'):
        ok.append(equal(inp, d[k + '_var'], r.out[k + '_var']))
    return inp.all(ok)


def measures(inp):
    """every subset of measures: each gets the rupture's answer for exactly these sites"""
    flat.install(inp)
    D = inp.mod('impactutils.rupture.distance')
    shape = inp.p['shape']
    r = Recorder(inp, shape)
    want = [k for k in ALL if inp.flag('w' + k)] if inp.p.get('any') else inp.p['want']
    if not want:
        return
    lat, lon, dep = sites(inp, shape)
    before = [a.copy() for a in (lat, lon, dep)]
    ask = want[0] if len(want) == 1 and inp.flag('plain') else list(want)
    d = inp.call('get_distance', D.get_distance, ask, lat, lon, dep, r)
    inp.reach('measures')
    for k in want:
        inp.check(k in d and d[k].shape == tuple(shape), lambda: f'{k}: {d.get(k)}')
        inp.check(correct(inp, d, k, r), lambda: f'{k} is {d[k]}')
    for name, (a, b, c) in r.calls:
        inp.check(inp.all([equal(inp, a, lon), equal(inp, b, lat), equal(inp, c, dep)]), lambda: f'{name} of {a} {b} {c}')
    inp.check(inp.all([equal(inp, a, b) for a, b in zip(before, (lat, lon, dep))]), 'sites changed')
    inp.check(sorted(D.get_distance_measures()) == sorted(ALL), lambda: f'{D.get_distance_measures()}')


def wrong(inp):
    """unknown measures and site arrays that do not fit are errors"""
    flat.install(inp)
    D = inp.mod('impactutils.rupture.distance')
    X = inp.mod('impactutils.exceptions')
    r = Recorder(inp, (2,))
    lat, lon, dep = sites(inp, (2,))
    if inp.p['what'] == 'name':
        w = inp.string('name', 1, 3, 'rxyT0')
        inp.assume(inp.all([inp.no(w == k) for k in ALL]))
        ask = [w, 'rrup'] if inp.flag('both') else w
        out, e = inp.raises(D.get_distance, ask, lat, lon, dep, r)
        inp.reach('wrong')
        inp.check(isinstance(e, NotImplementedError), lambda: f'{w}: {out} {e!r}')
    else:
        i = inp.p['which']
        a = [lat, lon, dep]
        a[i] = a[i].reshape((2, 1)) if inp.flag('column') else a[i][:1]
        out, e = inp.raises(D.get_distance, ['repi'], *a, r)
        inp.reach('wrong')
        inp.check(isinstance(e, X.ConsistentLengthError), lambda: f'{a}: {out} {e!r}')


def point_distances(inp):
    """distance to hypocentre and epicentre of a rupture of any kind"""
    flat.install(inp)
    o = rupt.origin(inp, lat=inp.real('olat', -20, 20), lon=inp.real('olon', -20, 20), depth=inp.real('odep', 0, 60))
    if inp.p['kind'] == 'point':
        r = inp.mod('impactutils.rupture.point_rupture').PointRupture(o)
    else:
        top = [rupt.pt(inp, '0', '0', '1'), rupt.pt(inp, '0', '1/10', '1')]
        bot = [rupt.pt(inp, '1/10', '0', '9'), rupt.pt(inp, '1/10', '1/10', '9')]
        poly = rupt.geojson([top + bot[::-1] + top[:1]])
        r = inp.mod('impactutils.rupture.quad_rupture').QuadRupture(poly, o) if inp.p['kind'] == 'quad' else \
            inp.mod('impactutils.rupture.edge_rupture').EdgeRupture(poly, o)
    shape = inp.p['shape']
    lat, lon, dep = sites(inp, shape)
    D = inp.mod('impactutils.rupture.distance')
    d = inp.call('get_distance', D.get_distance, ['repi', 'rhypo'], lat, lon, dep, r)
    inp.reach('points')
    for k, z in (('repi', 0), ('rhypo', o.depth)):
        inp.check(d[k].shape == tuple(shape), lambda: f'{k} {d[k]}')
        for x, y, q, v in zip(*(list(a.reshape(-1)) for a in (lon, lat, dep, d[k]))):
            a, b, c = (x - o.lon) * rupt.KM, (y - o.lat) * rupt.KM, q - z
            sq = a * a + b * b + c * c
            if inp.symbolic:
                inp.check(inp.all([v >= 0, v * v == sq]), lambda: f'{k} is {v}, squared {sq}')
            else:
                inp.check(abs(v - float(sq) ** 0.5) < 1e-6 * (1 + abs(v)), lambda: f'{k} is {v}, squared {sq}')


def spacing(inp):
    """asking for distances leaves the rupture as it was"""
    flat.install(inp)
    E = inp.mod('impactutils.rupture.edge_rupture').EdgeRupture
    top = [rupt.pt(inp, '0', '0', '1'), rupt.pt(inp, '0', '2/5', '1')]
    bot = [rupt.pt(inp, '1/10', '0', '9'), rupt.pt(inp, '1/10', '2/5', '9')]
    r = E(rupt.geojson([top + bot[::-1] + top[:1]]), rupt.origin(inp), mesh_dx=inp.p['own'])
    lon, lat, dep = arr(inp, [inp.const('3/10')]), arr(inp, [inp.real('lat', -1, 1)]), arr(inp, [inp.const('0')])
    D = inp.mod('impactutils.rupture.distance')
    a = inp.call('before', r.computeRrup, lon, lat, dep)[0][0]
    g = inp.call('get_distance', D.get_distance, 'rrup', lat, lon, dep, r, dx=inp.p['dx'])['rrup'][0]
    b = inp.call('after', r.computeRrup, lon, lat, dep)[0][0]
    inp.reach('spacing')
    inp.check(inp.close(a, b, 1e-6), lambda: f'distance {b} after asking for {g}, {a} before')
    fine = E(rupt.geojson([top + bot[::-1] + top[:1]]), rupt.origin(inp), mesh_dx=inp.p['dx'])
    c = inp.call('other', fine.computeRrup, lon, lat, dep)[0][0]
    inp.check(inp.close(g, c, 1e-6), lambda: f'distance {g} with spacing {inp.p["dx"]}, expected {c}')


def context(inp):
    """the context holds what the ground motion models require"""
    flat.install(inp)
    from openquake.hazardlib import const
    from openquake.hazardlib.gsim.base import GMPE
    D = inp.mod('impactutils.rupture.distance')
    X = inp.mod('impactutils.exceptions')

    class Model(GMPE):
        DEFINED_FOR_INTENSITY_MEASURE_COMPONENT = DEFINED_FOR_TECTONIC_REGION_TYPE = ''
        DEFINED_FOR_INTENSITY_MEASURE_TYPES = frozenset()
        DEFINED_FOR_STANDARD_DEVIATION_TYPES = frozenset({const.StdDev.TOTAL})
        REQUIRES_DISTANCES = REQUIRES_RUPTURE_PARAMETERS = REQUIRES_SITES_PARAMETERS = frozenset()

        def __init__(self):
            pass

        def compute(self, ctx: np.recarray, imts, mean, sig, tau, phi):
            pass
    models, need = [], {'repi', 'rhypo', 'rrup', 'rjb'}
    for i, ks in enumerate(inp.p['need']):
        m = Model()
        m.REQUIRES_DISTANCES = set(ks)
        models.append(m)
        need |= set(ks)
    shape = inp.p['shape']
    r = Recorder(inp, shape)
    lat, lon, dep = sites(inp, shape)
    arg = models[0] if len(models) == 1 and inp.flag('single') else models
    d = inp.call('Distance', D.Distance, arg, lon, lat, dep, r)
    c = inp.call('context', d.getDistanceContext)
    inp.reach('context')
    for k in need:
        inp.check(hasattr(c, k) and getattr(c, k) is not None and correct(inp, c.__dict__, k, r), lambda: f'{k} in {c.__dict__}')
    for name, (a, b, e) in r.calls:
        inp.check(inp.all([equal(inp, a, lon), equal(inp, b, lat), equal(inp, e, dep)]), lambda: f'{name} of {a} {b} {e}')
    out, e = inp.raises(D.Distance, [models[0], 'model'] if inp.flag('second') else 'model', lon, lat, dep, r)
    inp.check(isinstance(e, TypeError), lambda: f'{out} {e!r}')


HARNESSES = [
    H(measures, quick=[dict(want=list(w), shape=(2,)) for n in (1, 2) for w in itertools.combinations(ALL, n)][::2]
      + [dict(want=[k], shape=(2,)) for k in ALL] + [dict(want=ALL, shape=s) for s in ((2,), (2, 1), (1, 2))],
      thorough=[dict(any=1, shape=(1,))], max_paths=5000,
      bounds='subsets of the ten measures, every answer of the rupture, one and two sites in 1-d and 2-d arrays',
      reach=['measures'], obj_arrays=True),
    H(wrong, quick=[dict(what='name')] + [dict(what='shape', which=i) for i in range(3)],
      bounds='measure names of 1..3 letters; three kinds of array that does not fit', reach=['wrong'], obj_arrays=True),
    H(point_distances, quick=[dict(kind=k, shape=s) for k, s in (('point', (2,)), ('quad', (2, 1)), ('edge', (1, 2)), ('quad', (1,)))],
      bounds='every origin and one or two sites', reach=['points'], obj_arrays=True),
    H(spacing, quick=[dict(own=20, dx=40), dict(own=40, dx=13)], bounds='every latitude of one site, three mesh spacings',
      reach=['spacing'], obj_arrays=True),
    H(context, quick=[dict(need=n, shape=s) for n, s in (([()], (1,)), ([('rx',)], (2,)), ([('ry0', 'rjb'), ('rvolc',)], (2, 1)),
                                                        ([('rhypo',), ('rx', 'U')], (2,)))],
      bounds='one or two models with several requirements, every answer of the rupture', reach=['context'], obj_arrays=True),
]
ASSUMPTIONS = ['the geodetic conversions are replaced by a flat chart of the Earth, in symbolic runs and replays alike']
