"""Event and source files."""
import os

from sx.harness import H
from props import C06
from props.C30 import Text

DIG = '0123456789'
REQ = ['id', 'netid', 'lat', 'lon', 'depth', 'mag', 'locstring']


class Attrs(dict):
    def __setitem__(self, k, v):
        if not (isinstance(v, str) or type(v).__name__ == 'SStr'):
            raise TypeError(f'Argument must be bytes or unicode, got {type(v).__name__!r}')
        dict.__setitem__(self, k, v)


class El:
    """an XML element"""

    def __init__(self, tag, attrib=None, **kw):
        self.tag, self.attrib, self.kids = tag, Attrs(), []
        for k, v in {**(attrib or {}), **kw}.items():
            self.attrib[k] = v

    def set(self, k, v):
        self.attrib[k] = v

    def get(self, k, default=None):
        return self.attrib.get(k, default)

    def items(self):
        return list(self.attrib.items())

    def keys(self):
        return list(self.attrib)

    def append(self, e):
        self.kids.append(e)

    def iter(self, tag=None):
        if tag is None or self.tag == tag:
            yield self
        for k in self.kids:
            yield from k.iter(tag)

    def find(self, name):
        for k in self.kids:
            if k.tag == name.replace('./', ''):
                return k
        return None

    def findall(self, name):
        return [k for k in self.kids if k.tag == name]

    def __iter__(self):
        return iter(self.kids)

    def __len__(self):
        return len(self.kids)


class Tree:
    def __init__(self, root, disk):
        self.root, self.disk = root, disk

    def getroot(self):
        return self.root

    def find(self, n):
        return self.root.find(n)

    def write(self, path, **kw):
        self.disk[path] = self.root


class Handle:
    def __init__(self, content):
        self.content = content

    def read(self, *a):
        return self.content


def setup(inp):
    """(origin module, write(element, path-or-not) -> what to read)"""
    C06.module(inp)
    O = inp.mod('impactutils.rupture.origin')
    disk = {}
    from lxml import etree
    import defusedxml.ElementTree as dET
    if inp.symbolic:
        inp.override(etree.Element, lambda tag, attrib=None, **k: El(tag, attrib, **k))
        inp.override(etree.ElementTree, lambda root=None, **k: Tree(root, disk))
        inp.override(dET.fromstring, lambda data, *a, **k: data)

        def parse(p, *a, **k):
            if not isinstance(p, str):
                return Tree(p.read(), disk)
            if p not in disk:
                raise FileNotFoundError(p)
            return Tree(disk[p], disk)
        inp.override(dET.parse, parse)

    def put(root, path):
        if inp.symbolic:
            if not path:
                return Handle(root)
            disk[path] = root
            return path

        def conv(e):
            x = etree.Element(e.tag)
            for k, v in e.items():
                x.attrib[k] = v
            for c in e.kids:
                x.append(conv(c))
            return x
        data = etree.tostring(conv(root))
        if not path:
            return Handle(data)
        with open(path, 'wb') as f:
            f.write(data)
        return path
    return O, put, disk


def number(inp, name, kind):
    d = lambda i: inp.string(f'{name}_{i}', 1, 1, DIG)
    return {'int': lambda: d(0), 'neg': lambda: '-' + d(0) + '.' + d(1) + d(2), 'dec': lambda: d(0) + d(1) + '.' + d(2)}[kind]()


def attrs(inp, short=True):
    w = lambda n: inp.string(n, 1 if short else 0, 1 if short else 2, 'aB 1')
    return dict(id=w('id'), netid=w('net'), network=w('nw'), lat=number(inp, 'lat', 'neg'), lon=number(inp, 'lon', 'dec'),
                depth=number(inp, 'dep', 'dec'), mag=number(inp, 'mag', 'int'), locstring=w('loc'), time='2008-05-12T06:28:01Z')


def target(inp):
    return os.path.join(inp.scratch(), 'event.xml') if inp.flag('path') else None


def read(inp):
    """attributes as written"""
    O, put, _ = setup(inp)
    a = attrs(inp)
    opt = {k for k in inp.p['opt'] if inp.flag('has_' + k)}
    for k in ('mech', 'type', 'reference', 'productcode'):
        if k in opt:
            a[k] = inp.string(k, 0, 2, 'RSx')
    if 'unknown' in opt:
        a['created'] = '12'
    gone = 'nonetwork' in opt
    if gone:
        del a['network']
    path = target(inp)
    root = El('earthquake', a)
    if 'nested' in opt:
        r2 = El('earthquake-data')
        r2.append(El('other', {'lat': '1'}))
        r2.append(root)
        root = r2
    d = inp.call('read', O.read_event_file, put(root, path))
    inp.reach('read')
    want = {k: a[k] for k in ('id', 'netid', 'locstring', 'mech', 'type', 'reference', 'productcode') if k in a}
    want['network'] = '' if gone else a['network']
    for k in ('lat', 'lon', 'depth', 'mag'):
        want[k] = inp.parse_float(a[k])
    if path and 'productcode' not in want:
        want['productcode'] = a['id']
    got = {k: v for k, v in d.items() if k != 'time'}
    inp.check(sorted(got) == sorted(want) and inp.all([got[k] == want[k] for k in want]), lambda: f'{a} read as {d}')
    t = d['time']
    inp.check((t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond) == (2008, 5, 12, 6, 28, 1, 0), 'time')


def missing(inp):
    O, put, _ = setup(inp)
    a = attrs(inp)
    k = inp.choice('k', REQ + ['time'])
    del a[k]
    extra = []
    if k == 'time':
        ks = ['year', 'month', 'day', 'hour', 'minute', 'second']
        m = inp.choice('m', range(6))
        for i, q in enumerate(ks):
            if i != m:
                a[q] = '5'
    r, e = inp.raises(O.read_event_file, put(El('earthquake', a), target(inp)))
    inp.reach('missing')
    inp.check(isinstance(e, ValueError if k == 'time' else KeyError), lambda: f'without {k}: {r} {e!r}')


def fields(t):
    return [t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond]



def times(inp):
    """origin times"""
    O, put, _ = setup(inp)
    a = attrs(inp)
    d = lambda n, k: inp.string(n, k, k, DIG)
    y, mo, da, h, mi, s = d('y', 4), d('mo', 2), d('da', 2), d('h', 2), d('mi', 2), d('s', 2)
    frac = inp.p['frac']
    P = inp.parse_int
    if inp.p.get('valid'):
        inp.assume(inp.all([P(y) > 0, P(mo) == inp.p['valid'], P(da) > 0, P(da) < 29, P(h) < 24, P(mi) < 60, P(s) < 60]))
    us = 0
    f = ''
    if frac:
        f = d('f', frac)
        us = P(f) * 10 ** (6 - frac)
    if inp.p.get('old'):
        del a['time']
        a.update(year=y, month=mo, day=da, hour=h, minute=mi, second=s)
    else:
        a['time'] = y + '-' + mo + '-' + da + 'T' + h + ':' + mi + ':' + s + ('.' + f if frac else '') + 'Z'
    r, e = inp.raises(O.read_event_file, put(El('earthquake', a), None))
    inp.reach('time')
    Y, M, D = P(y), P(mo), P(da)
    ok = inp.all([Y >= 1, M >= 1, M <= 12, D >= 1, P(h) < 24, P(mi) < 60, P(s) < 60])
    lp = inp.any([inp.all([Y % 4 == 0, Y % 100 != 0]), Y % 400 == 0])
    dim = inp.ite(M == 2, inp.ite(lp, 29, 28), inp.ite(inp.any([M == 4, M == 6, M == 9, M == 11]), 30, 31))
    ok = inp.all([ok, D <= dim])
    if e is not None:
        inp.check(isinstance(e, ValueError), lambda: f'{a}: {e!r}')
        inp.check(inp.no(ok), lambda: f'{a} rejected: {e}')
        return
    inp.check(ok, lambda: f'{a} accepted')
    inp.check(inp.all([p == q for p, q in zip(fields(r['time']), [Y, M, D, P(h), P(mi), P(s), us])]), lambda: f'{a} read as {r["time"]}')


def badtime(inp):
    O, put, _ = setup(inp)
    a = attrs(inp)
    d = lambda n, k: inp.string(n, k, k, DIG)
    a['time'] = inp.choice('form', [lambda: '2008/05/' + d('a', 2) + 'T01:02:03Z', lambda: '2008-05-12 01:02:' + d('a', 2) + 'Z', lambda: '2008-05-12T01:02:' + d('a', 2),
                                    lambda: '12' + d('a', 3), lambda: '', lambda: '2008-05-12T01:02:03.' + d('a', 7) + 'Z', lambda: '2008-05-12T01:02:03Z' + d('a', 1)])()
    r, e = inp.raises(O.read_event_file, put(El('earthquake', a), None))
    inp.reach('badtime')
    inp.check(isinstance(e, ValueError), lambda: f'{a["time"]}: {r} {e!r}')


def written(inp):
    """reading back what was written"""
    O, put, disk = setup(inp)
    T = inp.mod('impactutils.time.ancient_time')
    w = lambda n: inp.string(n, 1, 1, 'aB 1')
    k = inp.p['vary']
    ev = dict(id=w('id'), netid=w('net'), network=w('nw'), lat=12.34567, lon=-120.00004, depth=15.75, mag=6.25, locstring=w('loc'))
    t = [2008, 5, 12, 6, 28, 1, 250000]
    if k == 'time':
        t = [inp.int('Y', 1, 9999), inp.choice('M', [2, 11]), inp.int('D', 1, 28), inp.int('h', 0, 23), inp.int('m', 0, 59), inp.int('s', 0, 59),
             inp.int('us', 0, 999999)]
    elif k in ev:
        lo, hi = inp.p['r']
        ev[k] = inp.real(k, lo, hi)
    ev['time'] = T.HistoricTime(*t)
    opt = inp.p.get('opt', [])
    for q in opt:
        if inp.flag('has_' + q):
            ev[q] = inp.string(q, 1, 2, 'RSx')
    if inp.p.get('et') and inp.flag('et'):
        ev['event_type'] = inp.choice('etype', ['ACTUAL', 'SCENARIO'])
    before = dict(ev)
    path = os.path.join(inp.scratch(), 'out.xml')
    r = inp.call('write', O.write_event_file, ev, path)
    inp.check(r is None, lambda: f'{ev}: {r}')
    inp.check(list(ev) == list(before) and all(ev[q] is before[q] for q in ev), 'event changed')
    d = inp.call('read', O.read_event_file, path)
    inp.reach('back')
    inp.check(inp.all([d[q] == ev[q] for q in ('id', 'netid', 'network', 'locstring')]), lambda: f'{ev} read back as {d}')
    tol = lambda n: 0.5 * 10 ** -n + 1e-9
    inp.check(inp.all([inp.close(d['lat'], ev['lat'], tol(4)), inp.close(d['lon'], ev['lon'], tol(4)),
                       inp.close(d['depth'], ev['depth'], tol(1)), inp.close(d['mag'], ev['mag'], tol(1))]), lambda: f'{ev} read back as {d}')
    # to the second; no later
    f = fields(d['time'])
    inp.check(inp.all([inp.all([a == b for a, b in zip(f[:6], t[:6])]), inp.any([f[6] == 0, f[6] == t[6]])]), lambda: f'{t} read back as {d["time"]}')
    for q in ('mech', 'reference', 'productcode'):
        if q in ev:
            inp.check(q in d and d[q] == ev[q], lambda: f'{q} {ev[q]!r} read back as {d.get(q)!r}')
        elif q == 'productcode':
            inp.check(d[q] == ev['id'], 'product code')
        else:
            inp.check(q not in d, lambda: f'{q} appeared')
    et = root_attr(inp, disk, path, 'event_type')
    inp.check(et == ev.get('event_type', 'ACTUAL'), lambda: f'event type {et!r}')


def root_attr(inp, disk, path, k):
    if inp.symbolic:
        return disk[path].get(k)
    import defusedxml.ElementTree as dET
    return dET.parse(path).getroot().get(k)


def unwritable(inp):
    """what cannot be written is reported and leaves no file"""
    O, put, disk = setup(inp)
    T = inp.mod('impactutils.time.ancient_time')
    ev = dict(id='us1', netid='us', network='', lat=1.0, lon=2.0, depth=3.0, mag=4.0, locstring='', time=T.HistoricTime(2008, 5, 12))
    what = inp.choice('what', ['type', 'gone'])
    if what == 'type':
        ev['event_type'] = inp.string('et', 1, 6, 'ACTULactul ')
        inp.assume(inp.no(ev['event_type'] == 'ACTUAL'))
    else:
        k = inp.choice('k', list(ev))
        del ev[k]
    path = os.path.join(inp.scratch(), 'out.xml')
    r, e = inp.raises(O.write_event_file, ev, path)
    inp.reach('unwritable')
    inp.check(e is not None or (isinstance(r, str) and len(r)), lambda: f'{ev} written')
    inp.check(path not in disk and not os.path.exists(path), 'file left')


def source(inp):
    """key=value lines"""
    O, put, disk = setup(inp)
    n = inp.p['n']
    text, want = '', {}
    for i in range(n):
        kind = inp.choice(f'kind{i}', inp.p['kinds'])
        if kind == 'comment':
            text = text + '#' + inp.string(f'c{i}', 0, 2, 'a=1') + '\n'
            continue
        if kind == 'blank':
            text = text + inp.choice(f'b{i}', ['\n', '  \n'])
            continue
        k = 'k%d' % i if not inp.p.get('dup') else 'k'
        pad = inp.choice(f'p{i}', ['', ' '])
        d = lambda j: inp.string(f'd{i}{j}', 1, 1, DIG)
        if kind == 'int':
            v = inp.choice(f's{i}', ['', '-']) + d(0) + d(1)
            want[k] = (int, inp.parse_int(v))
        elif kind == 'float':
            v = inp.choice(f's{i}', ['', '-']) + d(0) + '.' + d(1) + d(2)
            want[k] = (float, inp.parse_float(v))
        elif kind == 'equals':
            v = 'x=' + inp.string(f'w{i}', 1, 2, 'a=1')
            want[k] = (str, v)
        else:
            v = 'R' + inp.string(f'w{i}', 0, 2, 'S x1').strip()
            want[k] = (str, v)
        text = text + pad + k + pad + '=' + pad + v + pad + ('\n' if i < n - 1 or inp.flag('nl') else '')
    h = Text(inp, text)
    r = inp.call('read_source', O.read_source, h)
    inp.reach('source')
    ok = list(r) == list(want) and all(inp.pytype(r[k]) is t for k, (t, v) in want.items())
    inp.check(ok and inp.all([r[k] == v for k, (t, v) in want.items()]), lambda: f'{text!r} -> {r}')
    inp.check(not h.closed, 'closed an object of the caller')


def combine(inp):
    """source values win over the event file"""
    O, put, disk = setup(inp)
    a = attrs(inp)
    a['mech'] = inp.choice('m', ['', 'SS'])
    lines, want = '', {}
    for k, kind in (('mag', 'dec'), ('lat', 'neg'), ('locstring', 'word'), ('mech', 'mech'), ('rake', 'neg'), ('id', 'word')):
        if inp.flag('has_' + k):
            v = {'word': lambda: 'z' + inp.string('s' + k, 0, 1, 'ab'), 'mech': lambda: inp.choice('smech', ['RS', 'NM'])}.get(kind, lambda: number(inp, 's' + k, kind))()
            lines = lines + k + '=' + v + '\n'
            want[k] = v if kind in ('word', 'mech') else inp.parse_float(v)
    o = inp.call('fromFile', O.Origin.fromFile, put(El('earthquake', a), target(inp)), sourcefile=Text(inp, lines) if inp.flag('src') or want else None)
    inp.reach('combined')
    for k in ('mag', 'lat', 'lon', 'depth'):
        w = want.get(k, inp.parse_float(a[k]))
        inp.check(getattr(o, k) == w, lambda: f'{k}: {getattr(o, k)}, expected {w}')
    for k in ('locstring', 'id', 'netid', 'network'):
        inp.check(getattr(o, k) == want.get(k, a[k]), lambda: f'{k}: {getattr(o, k)}')
    m = want.get('mech', a['mech'] or 'ALL')
    inp.check(o.mech == m, lambda: f'mechanism {o.mech}, expected {m}')
    rk = want.get('rake', {'ALL': 0.0, 'SS': 0.0, 'RS': 90.0, 'NM': -90.0}[m])
    inp.check(o.rake == rk, lambda: f'rake {o.rake}')


def moment(inp):
    """values of a moment file"""
    O, put, disk = setup(inp)
    a = attrs(inp)
    path = os.path.join(inp.scratch(), 'moment.xml')
    src = put(El('earthquake', a), None)
    mom = put(El('quakeml'), path)
    o = inp.call('moment file', O.Origin.fromFile, src, momentfile=mom)
    inp.reach('moment')


OPT = [['mech', 'reference', 'nested'], ['type', 'productcode', 'nonetwork'], ['mech', 'type', 'unknown']]
VARY = [('lat', [-90, 90]), ('lon', [-180, 180]), ('depth', [-5, 700]), ('mag', [-2, 10])]

HARNESSES = [
    H(read, quick=[dict(opt=o) for o in OPT], bounds='every digit and word of the attributes, optional attributes in three sets, path or object', reach=['read'], max_paths=4000),
    H(missing, bounds='each required value', reach=['missing']),
    H(times, quick=[dict(frac=f, valid=m) for f, m in ((0, 2), (6, 11), (3, 1))] + [dict(frac=0), dict(frac=0, old=1)],
      bounds='every digit of the time, with and without fraction, and as separate values', reach=['time'], max_paths=6000),
    H(badtime, bounds='seven malformed times', reach=['badtime']),
    H(written, quick=[dict(vary=k, r=r) for k, r in VARY] + [dict(vary='time'), dict(vary=None, opt=['mech', 'reference', 'productcode'], et=1)],
      bounds='each number over its range, every date in two months of years 1..9999, optional values up to 2 letters', reach=['back']),
    H(unwritable, bounds='event types up to 6 letters, each missing value', reach=['unwritable']),
    H(source, quick=[dict(n=2, kinds=['int', 'float', 'blank']), dict(n=2, kinds=['word', 'equals', 'comment']), dict(n=2, kinds=['int', 'word'], dup=1),
                     dict(n=3, kinds=['int', 'blank', 'comment'])],
      bounds='up to 3 lines of 6 kinds', reach=['source'], max_paths=6000),
    H(combine, bounds='any subset of six values', reach=['combined'], max_paths=6000),
    H(moment, bounds='one file', reach=[]),
]
ASSUMPTIONS = ['the XML library stores and returns attributes unchanged (an element model in symbolic runs, the real library in replays)',
               'datetime is modelled as for C06']
