"""Event and place information from web services."""
import datetime
import email.message
import io
import json
import os
import time
import urllib.error
import urllib.parse
import urllib.request

from sx.harness import H

M = 'impactutils.comcat.query'
DETAIL = 'https://earthquake.usgs.gov/earthquakes/feed/v1.0/detail/'


class Blob:
    """bytes / text of a response whose content has symbolic parts"""

    def __init__(self, content):
        self.content = content

    def decode(self, *a, **k):
        return self


class Response:
    def __init__(self, net, data):
        self.net, self.data, self.status = net, data, 200
        net.opened += 1

    def read(self, *a):
        return self.data

    def close(self):
        self.net.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Net:
    """what the two ends see: requests, waits"""

    def __init__(self, inp, answers):
        self.inp, self.answers = inp, list(answers)
        self.requests, self.waits, self.opened, self.closed = [], [], 0, 0
        inp.stub(urllib.request, 'urlopen', self.urlopen)
        inp.patch(urllib.request, 'urlopen', self.urlopen)
        inp.stub(time, 'sleep', self.waits.append)
        inp.patch(time, 'sleep', self.waits.append)
        if inp.symbolic:
            real = json.loads

            def loads(s, **k):
                return s.content if isinstance(s, Blob) else real(s, **k)
            inp.override(real, loads)

    def urlopen(self, url, data=None, timeout=None, **k):
        if isinstance(url, urllib.request.Request):
            url = url.full_url
        self.requests.append((url, timeout))
        a = self.answers.pop(0) if len(self.answers) > 1 else self.answers[0]
        if callable(a):
            a = a(url)
        if isinstance(a, BaseException):
            raise a
        return Response(self, a)

    def data(self, content):
        return Blob(content) if self.inp.symbolic else json.dumps(content).encode('utf-8')


def error(inp, what, code=None):
    if what == 'http':
        return urllib.error.HTTPError('http://x', code, 'no', email.message.Message(), io.BytesIO(b''))
    if what == 'url':
        return urllib.error.URLError('no route')
    if what == 'timeout':
        return TimeoutError('slow')
    return ConnectionResetError('gone')


def fetch(inp):
    """which failures are tried again, and what is given in the end"""
    Q = inp.mod(M)
    how = inp.choice('first', ['ok', 'http', 'url', 'timeout', 'reset'])
    first = code = None
    if how == 'http':
        code = inp.int('code', 400, 599)
        first = error(inp, 'http', code)
    elif how != 'ok':
        first = error(inp, how)
    second = inp.choice('second', ['ok', 'http', 'url'])
    code2 = inp.int('code2', 400, 599) if second == 'http' else None
    body = {'id': 'us1', 'properties': {'ids': ',us1,', 'place': 'here', 'tsunami': 0, 'url': 'u'}, 'geometry': {}}
    data = json.dumps(body).encode('utf-8')
    net = Net(inp, [data if how == 'ok' else first, data if second == 'ok' else error(inp, second, code2)])
    r, e = inp.raises(Q.ComCatInfo, 'us1')
    inp.reach('fetched')
    again = how == 'http' and bool(code == 503)
    inp.check(inp.all([u == DETAIL + 'us1.geojson' for u, t in net.requests]), lambda: f'requests {net.requests}')
    inp.check(all(t is not None and t > 0 for u, t in net.requests), 'no timeout')
    good = how == 'ok' or again and second == 'ok'
    if good:
        inp.check(e is None, lambda: f'first {how} {code}, then {second}: {e!r}')
        inp.check(r is not None and r.getLocation() == 'here', 'data')
        inp.check(len(net.requests) == (2 if again else 1) and len(net.waits) == (1 if again else 0) and net.opened == net.closed, lambda: f'{net.requests} {net.waits}')
        if again:
            inp.reach('again')
    else:
        inp.check(isinstance(e, Exception) and 'Could not connect to ComCat' in str(e), lambda: f'first {how} {code}, then {second}: {r} {e!r}')
        inp.check(len(net.requests) == (2 if again else 1), lambda: f'{len(net.requests)} requests after {how} {code}')


def service(inp):
    """a place that cannot be reached"""
    Q = inp.mod(M)
    what = inp.choice('what', ['http', 'url', 'timeout'])
    code = inp.int('code', 400, 599) if what == 'http' else 0
    e0 = error(inp, what, code)
    which = inp.choice('which', ['regions', 'places', 'both'])

    def answer(url):
        return e0 if which == 'both' or which in url else b'{"geonames": {"features": []}, "authoritative": {"features": []}}'
    Net(inp, [answer])
    r, e = inp.raises(Q.GeoServe, 10, 20)
    inp.reach('service')
    inp.check(isinstance(e, Exception) and not isinstance(e, (TypeError, NameError, AttributeError)), lambda: f'{what} {code}: {r} {e!r}')


def ids(inp):
    """identifiers of an event and their sources"""
    Q = inp.mod(M)
    n = inp.p['n']
    src, eids = [], []
    for i in range(n):
        s = inp.string(f's{i}', inp.p['len'][i], inp.p['len'][i], 'atls')
        d = inp.string(f'd{i}', 1, 1, '01')
        src.append(s)
        eids.append(s + d)
    inp.assume(inp.all([inp.no(eids[i] == eids[j]) for i in range(n) for j in range(i)]))
    # the id of the event is anywhere among them, the sources are in their own order
    at = inp.choice('at', range(n))
    order = inp.choice('order', {1: [(0,)], 2: [(0, 1), (1, 0)], 3: [(0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0), (1, 0, 2), (0, 2, 1)]}[n])
    lead, tail = (',' if inp.flag('lead') else ''), (',' if inp.flag('tail') else '')
    join = lambda xs: lead + sum_(xs) + tail
    body = {'id': eids[at], 'properties': {'ids': join(eids), 'sources': join([src[i] for i in order])}}
    net = Net(inp, [])
    net.answers = [net.data(body)]
    info = inp.call('ComCatInfo', Q.ComCatInfo, 'xx')
    others = [i for i in range(n) if i != at]
    for again in range(2):
        a, ids_ = inp.call('ids', info.getAssociatedIds)
        inp.check(inp.all([a == eids[at], len(ids_) == n - 1] + [x == eids[i] for x, i in zip(ids_, others)]), lambda: f'ids {a} {ids_} of {body}')
        s, ss = inp.call('sources', info.getAssociatedSources)
        inp.check(inp.all([s == src[at], len(ss) == n - 1] + [x == src[i] for x, i in zip(ss, others)]), lambda: f'sources {s} {ss} of {body}')
    inp.reach('ids')


def sum_(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + ',' + x
    return r


def params(inp):
    """time, position and magnitude"""
    Q = inp.mod(M)
    lon, lat, dep, mag = inp.real('lon', -180, 360), inp.real('lat', -90, 90), inp.real('dep', -10, 700), inp.real('mag', -2, 10)
    ms = inp.int('ms', -2 * 10 ** 12, 4 * 10 ** 12)
    ts = inp.int('ts', 0, 1)
    place, url = inp.string('place', 0, 4, 'ab ,'), 'http://somewhere/x'
    body = {'id': 'us1', 'properties': {'ids': ',us1,', 'time': ms, 'mag': mag, 'place': place, 'tsunami': ts, 'url': url, 'alert': 1, 'detail': 'no'},
            'geometry': {'type': 'Point', 'coordinates': [lon, lat, dep]}}
    net = Net(inp, [])
    net.answers = [net.data(body)]
    eid = inp.string('eid', 1, 4, 'usx01')
    info = inp.call('ComCatInfo', Q.ComCatInfo, eid)
    inp.check(len(net.requests) == 1 and net.requests[0][0] == DETAIL + eid + '.geojson', lambda: f'{net.requests}')
    d = inp.call('params', info.getEventParams)
    inp.reach('params')
    inp.check(sorted(d) == ['depth', 'lat', 'lon', 'magnitude', 'time'], lambda: f'{sorted(d)}')
    inp.check(inp.all([d['lat'] == lat, d['lon'] == lon, d['depth'] == dep, d['magnitude'] == mag]), lambda: f'{d} of {body}')
    true = datetime.datetime(1970, 1, 1) + (datetime.timedelta(milliseconds=ms) if not inp.symbolic else delta(ms))
    off = d['time'] - true
    one = datetime.timedelta(seconds=1)
    inp.check(inp.all([off < one, off > -one]), lambda: f'time {d["time"]} expected {true}')
    inp.check(inp.all([info.getLocation() == place, info.getTsunami() == ts, info.getURL() == url]), 'attributes')


def delta(ms):
    from sx.symtime import SDelta
    return SDelta(ms * 1000)


def geoserve(inp):
    """places and regions"""
    Q = inp.mod(M)
    lat, lon = inp.dec('lat', -90, 90, 1) if inp.p['free'] == 'lat' else 37.28935, inp.dec('lon', -180, 180, 1) if inp.p['free'] == 'lon' else -0.5
    kw = {}
    if inp.p['free'] == 'kw':
        kw = dict(maxradius=inp.int('rad', 0, 999), minpop=inp.int('pop', 0, 99999))
    n = inp.choice('n', range(3)) if not inp.p['free'] else 1
    feats = [{'properties': {'network': inp.string(f'net{i}', 2, 2, 'ABC'), 'type': inp.string(f'type{i}', 1, 1, 'ax'), 'name': 'x'}} for i in range(n)]
    places = {'geonames': {'features': [{'id': i} for i in range(inp.choice('m', range(3)) if not inp.p['free'] else 1)]}, 'metadata': {'a': 1}}
    regions = {'metadata': {'request': 1}, 'authoritative': {'features': feats}, 'fe': {'features': [3]}, 'admin': {'features': []}}
    net = Net(inp, [])
    net.answers = [lambda u: net.data(regions if 'regions.json' in u else places)]
    g = inp.call('GeoServe', Q.GeoServe, lat, lon, **kw)
    inp.check(sorted(u.split('?')[0].rsplit('/')[-1] if isinstance(u, str) else name(inp, u) for u, t in net.requests) == ['places.json', 'regions.json'], lambda: f'{net.requests}')
    q = {}
    for u, t in net.requests:
        base, _, rest = u.partition('?')
        q[str(base)] = dict(tuple(kv.split('=')) for kv in rest.split('&'))
    want = {'latitude': inp.str(lat), 'longitude': inp.str(lon)}
    P, R = q['http://earthquake.usgs.gov/ws/geoserve/places.json'], q['http://earthquake.usgs.gov/ws/geoserve/regions.json']
    inp.check(inp.all([R[k] == v for k, v in want.items()]) and len(R) == 2, lambda: f'{R}')
    want.update(maxradiuskm=inp.str(kw.get('maxradius', 500)), minpopulation=inp.str(kw.get('minpop', 1000)), type='geonames')
    inp.check(inp.all([P[k] == v for k, v in want.items()]) and len(P) == 5, lambda: f'{P}')
    inp.reach('geoserve')
    inp.check(inp.call('places', g.getPlaces) == places['geonames']['features'], 'places')
    a = inp.call('authoritative', g.getAuthoritative)
    inp.check(len(a) == 2 and inp.all([x == y for x, y in zip(a, (feats[0]['properties']['network'], feats[0]['properties']['type']) if n else ('US', 'NA'))]), lambda: f'{a} of {feats}')
    r = inp.call('regions', g.getRegions)
    inp.check(sorted(r) == ['admin', 'authoritative', 'fe'] and r['fe'] == {'features': [3]} and r['admin'] == {'features': []} and len(r['authoritative']['features']) == n, lambda: f'regions {sorted(r)}')


def name(inp, u):
    return 'places.json' if 'places.json' in u else 'regions.json' if 'regions.json' in u else '?'


def grid(inp):
    """ground-shaking grid of the event"""
    Q = inp.mod(M)
    has = inp.choice('has', ['one', 'two', 'none', 'nogrid', 'empty'])
    maps = {'one': [1], 'two': [1, 2], 'none': None, 'nogrid': [0], 'empty': []}[has]
    products = {'dyfi': []}
    if maps is not None:
        products['shakemap'] = [{'contents': {'download/grid.xml': {'url': f'http://a/{i}.xml'}} if i else {}} for i in maps]
    body = {'id': 'us1', 'properties': {'ids': ',us1,', 'products': products}}
    ok = inp.flag('ok')
    err = None if ok else error(inp, inp.choice('err', ['http', 'url', 'timeout']), inp.int('code', 400, 599))
    text = '<grid>\né 1 2 3\n</grid>\n'
    net = Net(inp, [json.dumps(body).encode(), text.encode('utf-8') if ok else err])
    info = inp.call('ComCatInfo', Q.ComCatInfo, 'us1')
    local = os.path.join(inp.scratch(), 'grid.xml')
    if os.path.exists(local):
        os.unlink(local)
    save = inp.flag('save')
    old = save and inp.flag('old')
    if old:
        with open(local, 'w') as f:
            f.write('old')
    r = inp.call('grid', info.getShakeGrid, *([local] if save else []))
    inp.reach('grid')
    if has not in ('one', 'two') or save and not ok:
        inp.check(r is None, lambda: f'{r}')
        inp.check(os.path.exists(local) == bool(old) and (not old or open(local).read() == 'old'), 'file made or changed by a failure')
        return
    if not save:
        inp.check(r == 'http://a/1.xml' and len(net.requests) == 1, lambda: f'{r}')
        return
    inp.check(r == local and net.requests[-1][0] == 'http://a/1.xml', lambda: f'{r} {net.requests}')
    inp.check(os.path.exists(local) and open(local, encoding='utf-8').read() == text, 'content of the file')


L3 = [dict(n=1, len=[2]), dict(n=2, len=[2, 2]), dict(n=2, len=[1, 2]), dict(n=2, len=[3, 1]), dict(n=3, len=[1, 2, 3]), dict(n=3, len=[2, 2, 2]), dict(n=3, len=[2, 1, 2])]
HARNESSES = [
    H(fetch, bounds='every failure and status of the first and second request', reach=['fetched', 'again']),
    H(service, bounds='every failure and status', reach=['service']),
    H(ids, quick=L3, bounds='up to three ids with sources of up to three letters, every order', reach=['ids']),
    H(params, bounds='every position, magnitude and time', reach=['params']),
    H(geoserve, quick=[dict(free=f) for f in ('', 'lat', 'lon', 'kw')], bounds='positions to one decimals, up to two regions and places', reach=['geoserve']),
    H(grid, bounds='none to two maps, every failure of the download', reach=['grid']),
]
ASSUMPTIONS = ['the web services are replaced by stand-ins; text of responses is not parsed symbolically']
