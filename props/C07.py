"""Time zone lookup and local/UTC conversion."""
import datetime
import json
import os

from sx.harness import H

ZONES = ['Africa/Cairo', 'America/New_York', 'Asia/Kolkata', 'Pacific/Fiji', 'UTC', 'Asia/Tokyo']
GRID = [[0, 1, 2, 3], [3, 4, 5, 0], [2, 0, 1, 5]]
TIMES = [datetime.datetime(2016, 1, 1, 20, 23), datetime.datetime(2019, 7, 4, 3, 0, 59)]
RASTERS = {
    'plain': dict(lon=(-180.0, 180.0), lat=(-60.0, 60.0), res=(90.0, 40.0)),
    'limited': dict(lon=(10.0, 12.0), lat=(40.0, 41.5), res=(0.5, 0.5)),
    'wrap': dict(lon=(176.0, -176.0), lat=(-3.0, 3.0), res=(2.0, 2.0)),
}


def build(inp, kind, T):
    import numpy as np
    from PIL import Image
    r = RASTERS[kind]
    d = inp.scratch()
    tif, js = os.path.join(d, 'z.tif'), os.path.join(d, 'z.json')
    Image.fromarray(np.array(GRID, dtype=np.uint8)).save(tif)
    with open(js, 'w') as f:
        json.dump({z: i for i, z in enumerate(ZONES)}, f)
    (w, e), (s, n) = r['lon'], r['lat']
    ext = {'Upper Left': (w, n), 'Lower Left': (w, s), 'Upper Right': (e, n), 'Lower Right': (e, s)}
    return T.TimeConversion(tiff=tif, raster_shape=(3, 4), extents=ext, resolution=r['res'], timezone_coding=js)


def cell(inp, kind, lat, lon, how):
    """independent lookup; forks on the intervals of lat/lon"""
    r = RASTERS[kind]
    (w, e), (s, n) = r['lon'], r['lat']
    if e < w:
        e += 360
        # distance to the raster, both representations
        a = w - lon if lon < w else (lon - e if lon > e else 0)
        l2 = lon + 360
        b = w - l2 if l2 < w else (l2 - e if l2 > e else 0)
        if b < a:
            lon = l2
    lon = w if lon < w else (e if lon > e else lon)
    lat = s if lat < s else (n if lat > n else lat)
    x, y = (lon - w) / r['res'][0], (n - lat) / r['res'][1]

    def idx(v, cnt):
        for i in range(cnt - 1):
            if how == 'floor' and v < i + 1:
                return i
            if how == 'ceil' and v <= i:
                return i
            if how == 'round' and (v < i + 0.5 or (v == i + 0.5 and i % 2 == 0)):
                return i
        return cnt - 1
    return ZONES[GRID[idx(y, 3)][idx(x, 4)]]


def lookup(inp):
    T = inp.mod('impactutils.time.timeutils')
    kind = inp.p['kind']
    c = inp.call('ctor', build, inp, kind, T)
    lat = inp.real('lat', -90.0, 90.0)
    lon = inp.real('lon', -180.0, 180.0)
    how = inp.p['how']
    if how == 'default':
        code = inp.call('code', c.get_timezone_code, lat, lon)
        want = cell(inp, kind, lat, lon, 'floor')
    else:
        code = inp.call('code', c.get_timezone_code, lat, lon, rounding_method=how)
        want = cell(inp, kind, lat, lon, how)
    inp.reach('code')
    inp.check(code == want, lambda: f'{kind} {how} ({lat},{lon}) -> {code}, expected {want}')


def convert(inp):
    import pytz
    T = inp.mod('impactutils.time.timeutils')
    kind = inp.p['kind']
    c = inp.call('ctor', build, inp, kind, T)
    lat = inp.real('lat', -90.0, 90.0)
    lon = inp.real('lon', -180.0, 180.0)
    how = inp.choice('how', ['floor', 'round', 'ceil'])
    t = inp.choice('t', TIMES)
    loc = inp.call('to_localtime', c.to_localtime, t, lat, lon, rounding_method=how)
    want = cell(inp, kind, lat, lon, how)
    tz = pytz.timezone(want)
    off = tz.utcoffset(t) if want == 'UTC' else pytz.utc.localize(t).astimezone(tz).utcoffset()
    inp.reach('local')
    inp.check(loc.replace(tzinfo=None) == t + off and loc.utcoffset() == off,
              lambda: f'{kind} {how} ({lat},{lon}) {t} UTC -> {loc}, expected zone {want}')
    back = inp.call('to_utctime', c.to_utctime, t + off, lat, lon, rounding_method=how)
    inp.check(back.replace(tzinfo=None) == t and back.utcoffset() == datetime.timedelta(0),
              lambda: f'{kind} {how} ({lat},{lon}) {t + off} local -> {back}, expected {t} UTC')


def refused(inp):
    T = inp.mod('impactutils.time.timeutils')
    X = inp.mod('impactutils.exceptions')
    c = inp.call('ctor', build, inp, 'plain', T)
    lat = inp.real('lat', -90.0, 90.0)
    lon = inp.real('lon', -180.0, 180.0)
    how = inp.string('how', 1, 6, 'abcdefghijklmnopqrstuvwxyz')
    inp.assume(inp.all([inp.no(how == w) for w in ('floor', 'ceil', 'round')]))
    which = inp.choice('which', ['code', 'local', 'utc'])
    if which == 'code':
        r, e = inp.raises(c.get_timezone_code, lat, lon, how)
    elif which == 'local':
        r, e = inp.raises(c.to_localtime, TIMES[0], lat, lon, how)
    else:
        r, e = inp.raises(c.to_utctime, TIMES[0], lat, lon, how)
    inp.reach('refused')
    inp.check(isinstance(e, X.UnsupportedArgumentError), lambda: f'rounding method {how!r}: {r!r} {e!r}')
    # a custom raster needs all four of its descriptions
    d = inp.scratch()
    kw = dict(raster_shape=(3, 4), extents={}, resolution=(1, 1), timezone_coding=os.path.join(d, 'z.json'))
    kw.pop(inp.choice('missing', sorted(kw)))
    r, e = inp.raises(T.TimeConversion, tiff=os.path.join(d, 'z.tif'), **kw)
    inp.check(isinstance(e, X.RequiredArgumentError), lambda: f'custom raster with only {sorted(kw)}: {r!r} {e!r}')


# ----------------------------------------------------------- polygon lookup
class Box:
    """an axis-aligned zone polygon"""
    def __init__(self, b):
        self.bounds = b

    def contains(self, p):
        x0, y0, x1, y1 = self.bounds
        return bool(x0 < p.x) and bool(p.x < x1) and bool(y0 < p.y) and bool(p.y < y1)


class Pt:
    def __init__(self, x, y):
        self.x, self.y = x, y


def polygons(inp):
    """geometry and projection libraries replaced by exact boxes"""
    import fiona
    import shapely.geometry
    import shapely.ops
    import pyproj
    import pytz
    ne = inp.p['ne']
    boxes = [(10.0, 40.0, 12.0, 45.0), (12.0, 40.0, 20.0, 50.0), (-75.0, -40.0, -70.0, -35.0)]
    zones = ['Asia/Tokyo', 'America/New_York', 'Asia/Kolkata']
    key = 'tz_name1st' if ne else 'tzid'
    feats = [{'geometry': b, 'properties': {key: z, 'zone': 3}} for b, z in zip(boxes, zones)]
    if ne:
        feats.append({'geometry': (100.0, -10.0, 110.0, 10.0), 'properties': {key: None, 'zone': -4.5}})

    class Coll(list):
        def close(self):
            pass
    inp.stub(fiona, 'collection', lambda *a, **k: Coll(feats))
    inp.stub(shapely.geometry, 'shape', Box)
    inp.stub(shapely.geometry, 'Point', Pt)
    inp.stub(shapely.ops, 'transform', lambda proj, g: g)
    inp.stub(pyproj, 'Proj', lambda *a, **k: None)
    T = inp.mod('impactutils.time.timeutils')
    if inp.p.get('update'):
        lat, lon = 45.0, 15.0
    else:
        lat = inp.real('lat', -90.0, 90.0)
        lon = inp.real('lon', -180.0, 180.0)
    t = inp.choice('t', TIMES)
    if ne:
        lt = inp.call('LocalTimeNE', T.LocalTimeNE, t, lat, lon)
    else:
        lt = inp.call('LocalTime', T.LocalTime, 'zones.shp', t, lat, lon)
    if inp.p.get('update'):
        lat = inp.real('lat2', -90.0, 90.0)
        lon = inp.real('lon2', -180.0, 180.0)
        t = TIMES[1]
        inp.call('update', lt.update, t, lat, lon)
    zone = off = None
    for f in feats:
        if Box(f['geometry']).contains(Pt(lon, lat)):
            zone = f['properties'][key]
            off = pytz.timezone(zone).utcoffset(t) if zone else datetime.timedelta(hours=-4.5)
            zone = zone or 'undefined'
            break
    got, goff, gzone = lt.getLocalTime(), lt.getUTCOffset(), lt.getTimeZone()
    if zone is None:
        inp.reach('nautical')
        h = None
        for k in range(-12, 13):
            d = lon - 15.0 * k
            if -7.5 < d and d < 7.5:
                h = k
        if h is None:      # exactly between two zones
            inp.check(isinstance(goff, datetime.timedelta) or inp.is_sym(goff), 'offset is not a timedelta')
            return
        off, zone = datetime.timedelta(hours=h), 'undefined'
    else:
        inp.reach('zone')
    inp.check(inp.all([got == t + off, goff == off, gzone == zone]),
              lambda: f'({lat},{lon}) {t} UTC -> {got} {goff} {gzone}, expected {t + off} {off} {zone}')


K = ['plain', 'limited', 'wrap']
HARNESSES = [
    H(lookup, quick=[dict(kind=k, how=h) for k in K for h in ('floor', 'ceil', 'round', 'default')],
      bounds='all latitudes/longitudes in [-90,90]x[-180,180]; 3x4-cell rasters: whole globe, limited extent, across the antimeridian',
      reach=['code']),
    H(convert, quick=[dict(kind=k) for k in K], bounds='as lookup, two instants, three rounding methods', reach=['local'],
      max_paths=4000),
    H(refused, bounds='every lower-case rounding method name of 1..6 letters other than the three supported', reach=['refused'],
      max_paths=400),
    H(polygons, quick=[dict(ne=False), dict(ne=True), dict(ne=False, update=True)],
      bounds='all latitudes/longitudes, 3 (4) rectangular zones, two instants', reach=['zone', 'nautical'], max_paths=3000),
]
ASSUMPTIONS = ['shapefile reading, map projection and point-in-polygon are replaced by exact rectangles for the polygon-based lookup; raster reading (PIL) and pytz are the real libraries',
               'coordinates are real numbers; instants are two concrete dates (one in northern winter, one in summer)']
