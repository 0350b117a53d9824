"""Earthquake origins: required values, ranges, mechanism."""
from sx import flat
from sx.harness import H
from props import rupt

MECHS = ['SS', 'NM', 'RS', 'ALL']
RAKE = {'SS': 0.0, 'NM': -90.0, 'RS': 90.0, 'ALL': 0.0}
KEYS = ['id', 'netid', 'network', 'lat', 'lon', 'depth', 'locstring', 'mag', 'time']
ABC = 'SNMRALx '


def event(inp, **kw):
    T = inp.mod('impactutils.time.ancient_time')
    d = dict(id=inp.string('id', 2, 2, 'us1'), netid=inp.string('net', 1, 1, 'us1'), network=inp.string('network', 0, 1, 'us1'),
             lat=inp.real('lat', -90, 90), lon=inp.real('lon', -180, 180), depth=inp.real('depth', -5, 700),
             locstring=inp.string('loc', 2, 2, 'us1'), mag=inp.real('mag', -2, 10), time=T.HistoricTime(869, 7, 13, 12))
    d.update(kw)
    return d


def snap(d):
    return dict(d)


def unchanged(inp, d, before):
    return list(d) == list(before) and inp.all([d[k] is before[k] or d[k] == before[k] for k in before])


def make(inp):
    """every value of an acceptable event is an attribute"""
    O = inp.mod('impactutils.rupture.origin')
    ev = event(inp)
    kind = inp.p['kind']
    m = inp.choice('mech', MECHS)
    want = 'ALL' if kind in ('none', 'emptymech', 'emptytype') else m
    if kind in ('mech', 'both'):
        ev['mech'] = m
    if kind == 'both':
        ev['type'] = 'RS'
    if kind == 'type':
        ev['type'] = m
    if kind == 'emptymech':
        ev['mech'] = ''
    if kind == 'emptytype':
        ev['type'] = ''
    rake = inp.choice('rake', ['none', 'real', 'int', 'text'])
    wr = RAKE[want]
    if rake != 'none':
        ev['rake'] = {'real': lambda: inp.real('r', -180, 180), 'int': lambda: inp.int('r', -180, 180),
                      'text': lambda: inp.str(inp.int('r', -180, 180))}[rake]()
        wr = inp.parse_float(ev['rake']) if rake == 'text' else ev['rake']
    if inp.flag('extra'):
        ev['productcode'] = inp.string('pc', 1, 1, 'ab')
        ev['custom'] = inp.int('custom')
    if inp.flag('noid'):
        ev['id'] = None
    before = snap(ev)
    o = inp.call('Origin', O.Origin, ev)
    inp.reach('made')
    inp.check(inp.all([getattr(o, k) == before[k] for k in before if k not in ('mech', 'type', 'rake')]),
              lambda: f'{before} -> {o.__dict__}')
    inp.check(inp.all([o.mech == want, o.rake == wr]), lambda: f'{kind} {m}, {rake}: mech {o.mech} rake {o.rake}')
    inp.check(inp.pytype(o.rake) is float, lambda: f'rake {o.rake!r}')
    inp.check(unchanged(inp, ev, before), lambda: f'event changed to {ev}')
    # a second one from the same dictionary is the same
    o2 = inp.call('again', O.Origin, ev)
    inp.check(inp.all([o2.mech == want, o2.rake == wr, o2.lat == o.lat]), 'second origin')


def hypo(inp):
    flat.install(inp)
    O = inp.mod('impactutils.rupture.origin')
    ev = event(inp, lat=inp.real('la', -89, 89), depth=inp.real('z', 0, 700), lon=inp.real('lo', -179, 179))
    o = inp.call('Origin', O.Origin, ev)
    h = inp.call('getHypo', o.getHypo)
    inp.reach('hypo')
    inp.check(inp.all([inp.close(h.longitude, ev['lon']), inp.close(h.latitude, ev['lat']), inp.close(h.depth, ev['depth'])]),
              lambda: f'{h.longitude} {h.latitude} {h.depth} for {ev}')


def required(inp):
    O = inp.mod('impactutils.rupture.origin')
    ev = event(inp)
    n = inp.p['n']
    gone = set()
    for i in range(n):
        gone.add(inp.choice(f'g{i}', KEYS))
    for k in gone:
        del ev[k]
    r, e = inp.raises(O.Origin, ev)
    inp.reach('missing')
    inp.check(isinstance(e, KeyError), lambda: f'without {gone}: {e!r}')
    inp.check(all(k in str(e) for k in gone), lambda: f'without {gone}: {e}')


def ranges(inp):
    O = inp.mod('impactutils.rupture.origin')
    lat, lon = inp.real('la', -400, 400), inp.real('lo', -800, 800)
    as_text = inp.p['text']
    if as_text:
        lat, lon = inp.dec('tla', 88, 92, 1), inp.dec('tlo', -182, -178, 1)
        ev = event(inp, lat=inp.str(lat), lon=inp.str(lon))
    else:
        ev = event(inp, lat=lat, lon=lon)
    r, e = inp.raises(O.Origin, ev)
    ok = inp.all([lat >= -90, lat <= 90, lon >= -180, lon <= 180])
    inp.reach('range')
    inp.check(e is None or isinstance(e, ValueError), lambda: f'{e!r}')
    inp.check(ok if e is None else inp.no(ok), lambda: f'lat {lat} lon {lon}: {e!r}')


def badtypes(inp):
    O = inp.mod('impactutils.rupture.origin')
    ev = event(inp)
    what = inp.choice('what', ['int', 'bytes', 'list', 'mech', 'type'])
    if what in ('mech', 'type'):
        w = inp.string('w', 1, 3, ABC)
        inp.assume(inp.all([inp.no(w == m) for m in MECHS]))
        ev[what] = w
    else:
        ev['id'] = {'int': inp.int('n'), 'bytes': b'us1', 'list': ['us1']}[what]
    before = snap(ev)
    r, e = inp.raises(O.Origin, ev)
    inp.reach('bad')
    inp.check(isinstance(e, ValueError if what in ('mech', 'type') else TypeError), lambda: f'{what} {ev}: {e!r}')
    inp.check(unchanged(inp, ev, before), lambda: f'event changed to {ev}')


TABLE = {'RS': (90.0, 40.0), 'NM': (-90.0, 50.0), 'SS': (0.0, 90.0), 'ALL': (45.0, 90.0)}


def mechanism(inp):
    """setMechanism takes the given or the documented values"""
    O = inp.mod('impactutils.rupture.origin')
    o = O.Origin(event(inp, mech=inp.choice('m0', ['', 'RS'])))
    old = dict(o.__dict__)
    m = inp.choice('m', MECHS)
    kw = {}
    if inp.p['rake']:
        kw['rake'] = inp.real('rake', -1200, 1200)
    if inp.p['dip']:
        kw['dip'] = inp.real('dip', -100, 200)
    _, e = inp.raises(o.setMechanism, m, **kw)
    inp.reach('set')
    dip_ok = inp.all([kw['dip'] >= 0, kw['dip'] <= 90]) if 'dip' in kw else True
    rake_ok = inp.all([kw['rake'] >= -540, kw['rake'] <= 540]) if 'rake' in kw else True
    if e is not None:
        inp.check(isinstance(e, ValueError), lambda: f'{e!r}')
        inp.check(inp.no(inp.all([dip_ok, rake_ok])), lambda: f'{m} {kw}: {e!r}')
        inp.check(unchanged(inp, o.__dict__, old), lambda: f'{m} {kw} rejected, origin now {o.__dict__}')
        return
    inp.check(inp.all([dip_ok, rake_ok]), lambda: f'{m} {kw} accepted')
    inp.check(o.mech == m, lambda: f'mechanism {o.mech}')
    inp.check(o.dip == kw.get('dip', TABLE[m][1]), lambda: f'{m} {kw}: dip {o.dip}')
    if 'rake' in kw:
        r = kw['rake']
        inp.check(inp.all([o.rake >= -180, o.rake <= 180, inp.any([inp.close(o.rake, r + 360 * k, 1e-9) for k in (-1, 0, 1)])]),
                  lambda: f'{m} {kw}: rake {o.rake}')
        # in range already: as given
        inp.check(inp.implies(inp.all([r >= -180, r <= 180]), o.rake == r), lambda: f'{kw}: rake {o.rake}')
    else:
        inp.check(o.rake == TABLE[m][0], lambda: f'{m} {kw}: rake {o.rake}')
    inp.check(inp.all([getattr(o, k) == old[k] for k in old if k not in ('mech', 'rake', 'dip')]), 'other values changed')


def nomechanism(inp):
    O = inp.mod('impactutils.rupture.origin')
    o = O.Origin(event(inp, mech='RS'))
    w = inp.string('w', 0, 3, ABC)
    inp.assume(inp.all([inp.no(w == m) for m in MECHS]))
    if inp.flag('none'):
        w = None
    old = dict(o.__dict__)
    _, e = inp.raises(o.setMechanism, w, dip=inp.real('dip', 0, 90))
    inp.reach('refused')
    inp.check(isinstance(e, ValueError), lambda: f'{w}: {e!r}')
    inp.check(unchanged(inp, o.__dict__, old), lambda: f'{w} rejected, origin now {o.__dict__}')


def fromrake(inp):
    """mechanism of a rake"""
    U = inp.mod('impactutils.rupture.utils')
    r = inp.real('rake', -180, 180)
    m = inp.call('rake_to_mech', U.rake_to_mech, r)
    inp.reach('rake')
    near = lambda c: inp.all([r >= c - 30, r <= c + 30])
    want = {'SS': inp.any([near(-180), near(0), near(180)]), 'NM': near(-90), 'RS': near(90)}
    want['ALL'] = inp.no(inp.any(list(want.values())))
    inp.check(m in want and want[m], lambda: f'rake {r}: {m}')
    inp.check(U.rake_to_mech(None) == 'ALL', 'no rake')
    # the rakes setMechanism assigns mean that mechanism
    for k in ('RS', 'NM', 'SS', 'ALL'):
        inp.check(U.rake_to_mech(TABLE[k][0]) == k, lambda: f'{k}: {TABLE[k][0]}')


HARNESSES = [
    H(make, quick=[dict(kind=k) for k in ('none', 'mech', 'type', 'both', 'emptymech', 'emptytype')], bounds='every number, texts up to 2 letters, every mechanism source, rake as number or text', reach=['made'], max_paths=40000),
    H(hypo, bounds='every location off the poles and the antimeridian', reach=['hypo']),
    H(required, quick=[dict(n=1), dict(n=2)], bounds='one or two missing values', reach=['missing']),
    H(ranges, quick=[dict(text=0), dict(text=1)], bounds='latitudes and longitudes (numbers, or text near two limits) far beyond the limits', reach=['range']),
    H(badtypes, bounds='three wrong ids, mechanism words up to 3 letters', reach=['bad']),
    H(mechanism, quick=[dict(rake=r, dip=d) for r in (0, 1) for d in (0, 1)], bounds='rakes -1200..1200, dips -100..200', reach=['set']),
    H(nomechanism, bounds='mechanism words up to 3 letters', reach=['refused']),
    H(fromrake, bounds='every rake -180..180', reach=['rake']),
]
ASSUMPTIONS = ['numbers are exact reals (not NaN)']
