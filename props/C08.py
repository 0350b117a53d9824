"""Compass directions."""
from sx.harness import H

N16 = ['N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW', 'NW', 'NNW']
L16 = ['North', 'North-northeast', 'Northeast', 'East-northeast', 'East', 'East-southeast', 'Southeast',
       'South-southeast', 'South', 'South-southwest', 'Southwest', 'West-southwest', 'West', 'West-northwest',
       'Northwest', 'North-northwest']
STEP = {'cardinal': 4, 'intercardinal': 2, 'meteorological': 1}


def nearest(inp, name, az, res, fmt):
    names = (N16 if fmt == 'short' else L16)[::STEP[res]]
    if name not in names:
        return False
    w = 22.5 * STEP[res]
    d = az - w * names.index(name)
    near = [inp.all([d - 360 * k <= w / 2 + 1e-9, d - 360 * k >= -w / 2 - 1e-9]) for k in (-2, -1, 0, 1)]
    return inp.any(near)


def args(inp):
    kw = {}
    res, fmt = inp.p['res'], inp.p['fmt']
    if res:
        kw['resolution'] = res
    if fmt:
        kw['format'] = fmt
    return kw, res or 'intercardinal', fmt or 'short'


def by_azimuth(inp):
    C = inp.mod('impactutils.mapping.compass')
    az = inp.real('az', -360.0, 360.0)
    inp.assume(az < 360.0)
    kw, res, fmt = args(inp)
    r = inp.call('direction', C.get_compass_dir_azimuth, az, **kw)
    inp.reach('dir')
    inp.check(nearest(inp, r, az, res, fmt), lambda: f'azimuth {az} {res} {fmt} -> {r!r}')


def by_points(inp):
    """the direction between two points is that of the great-circle azimuth"""
    G = inp.mod('impactutils.extern.openquake.geodetic')
    real = G.azimuth
    C = inp.mod('impactutils.mapping.compass')
    la1, la2 = inp.real('lat1', -89.0, 89.0), inp.real('lat2', -89.0, 89.0)
    lo1, lo2 = inp.real('lon1', -180.0, 180.0), inp.real('lon2', -180.0, 180.0)
    memo = {}
    if inp.symbolic:
        def az(*a):
            k = tuple(id(x) for x in a)
            if k not in memo:
                memo[k] = inp.real(f'az{len(memo)}', 0.0, 360.0)
                inp.assume(memo[k] < 360.0)
            return memo[k]
        inp.override(real, az)
        want = az(lo1, la1, lo2, la2)
    else:
        want = float(real(lo1, la1, lo2, la2))
        inp.assume(abs(la1 - la2) + abs(lo1 - lo2) > 1e-6)
    kw, res, fmt = args(inp)
    r = inp.call('direction', C.get_compass_dir, la1, lo1, la2, lo2, **kw)
    inp.reach('dir')
    inp.check(nearest(inp, r, want, res, fmt),
              lambda: f'({la1},{lo1})->({la2},{lo2}) azimuth {want} {res} {fmt} -> {r!r}')


def refused(inp):
    C = inp.mod('impactutils.mapping.compass')
    az = inp.real('az', 0.0, 359.0)
    s = inp.string('s', 0, 6, 'abcdefghijklmnopqrstuvwxyzSLC')
    inp.assume(inp.all([inp.no(s == w) for w in ('short', 'long')]))
    if inp.flag('fmt'):
        r, e = inp.raises(C.get_compass_dir_azimuth, az, format=s)
    else:
        r, e = inp.raises(C.get_compass_dir_azimuth, az, resolution=s)
    inp.reach('refused')
    inp.check(isinstance(e, KeyError), lambda: f'{s!r} accepted: {r!r} {e!r}')


J = [dict(res=r, fmt=f) for r in ('cardinal', 'intercardinal', 'meteorological', None) for f in ('short', 'long', None)]
HARNESSES = [
    H(by_azimuth, quick=J, bounds='every azimuth in [-360,360), all resolutions and formats, also defaulted', reach=['dir']),
    H(by_points, quick=J, bounds='every pair of points below 89 degrees latitude; azimuth abstracted to any value in [0,360) (its own correctness is a separate property)', reach=['dir']),
    H(refused, bounds='every other word of up to 6 letters', reach=['refused'], max_paths=500),
]
ASSUMPTIONS = ['at an exact tie between two compass points either is accepted']
