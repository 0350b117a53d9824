"""ShakeMap containers: grouped storage, single-valued records, IMT data."""
import os

import numpy as np

from sx.harness import H
from props.C10 import same

KINDS = ['Dictionary', 'String', 'Array']
PLURAL = {'Dictionary': 'getDictionaries', 'String': 'getStrings', 'Array': 'getArrays'}
WHERE = [[], ['g'], ['g', 'h']]


def prepare(inp):
    if inp.symbolic:
        from sx import fakeh5
        fakeh5.install(inp)
    return inp.mod('impactutils.io.smcontainers'), os.path.join(inp.scratch(), 'c.hdf')


def arr(inp, *v):
    if inp.symbolic:
        a = np.empty(len(v), dtype=object)
        a[:] = v
        return a
    return np.array(v)


def payload(inp, kind, i):
    n = inp.int(f'v{i}', -1000, 1000)
    if kind == 'Dictionary':
        return {'n': n, 'x': [n, None]}
    if kind == 'String':
        return inp.string(f's{i}', 0, 1, 'a\xe9')
    return arr(inp, n, n + 1)


def fetch(c, kind, g, n):
    r = getattr(c, 'get' + kind)(g, n)
    return r[0] if kind == 'Array' else r


def audit(inp, c, model, when):
    for kind in KINDS:
        items = [(g, n, v) for k, g, n, v in model if k == kind]
        got = inp.call(f'{when}: listing', getattr(c, PLURAL[kind]))
        want = sorted('/'.join(g + [n]) for g, n, v in items)
        inp.check(sorted(got) == want, lambda: f'{when}: {PLURAL[kind]} lists {sorted(got)}, stored {want}')
        for g, n, v in items:
            r = inp.call(f'{when}: get{kind}', fetch, c, kind, g, n)
            inp.check(same(inp, v, r), lambda: f'{when}: {kind} {g}/{n} reads back {r!r}, stored {v!r}')


def grouped(inp):
    S, path = prepare(inp)
    c = inp.call('create', S.HDFContainerBase.create, path)
    model = []
    kinds = inp.p['kinds']
    for i in range(inp.p['steps']):
        kind = inp.choice(f'kind{i}', kinds)
        g = inp.choice(f'g{i}', WHERE)
        name = inp.choice(f'n{i}', ['x', 'y'] if i < 2 else ['x'])
        held = [k for k, (kk, gg, n, v) in enumerate(model) if (kk, gg, n) == (kind, g, name)]
        op = inp.choice(f'op{i}', ['set', 'drop', 'get'] if i else ['set'])
        if op == 'set':
            v = payload(inp, kind, i)
            if held:
                r, e = inp.raises(getattr(c, 'set' + kind), g, name, v)
                inp.check(e is not None, lambda: f'step {i}: second {kind} {g}/{name} accepted')
            else:
                inp.call(f'step {i}: set{kind}', getattr(c, 'set' + kind), g, name, v)
                model.append((kind, g, name, v))
        elif op == 'drop':
            if held:
                inp.call(f'step {i}: drop{kind}', getattr(c, 'drop' + kind), g, name)
                del model[held[0]]
            else:
                r, e = inp.raises(getattr(c, 'drop' + kind), g, name)
                inp.check(isinstance(e, LookupError), lambda: f'step {i}: drop{kind} of missing {g}/{name}: {e!r}')
        elif not held:
            r, e = inp.raises(fetch, c, kind, g, name)
            inp.check(isinstance(e, LookupError), lambda: f'step {i}: get{kind} of missing {g}/{name}: {r!r} {e!r}')
    inp.reach('audited')
    audit(inp, c, model, 'end')
    inp.call('close', c.close)
    c = inp.call('load', S.HDFContainerBase.load, path)
    audit(inp, c, model, 'reloaded')
    c.close()


REC = {'Config': AttributeError, 'RuptureDict': AttributeError, 'StationDict': AttributeError,
       'VersionHistory': None, 'Metadata': LookupError}


def records(inp):
    """set replaces, get returns the latest, bad input leaves it alone"""
    S, path = prepare(inp)
    c = inp.call('create', S.ShakeMapOutputContainer.create, path)
    model = {}
    names = inp.p['names']
    for i in range(inp.p['steps']):
        k = inp.choice(f'k{i}', names)
        op = inp.choice(f'op{i}', ['set', 'bad', 'reload'])
        if op == 'set':
            v = payload(inp, 'Dictionary', i)
            inp.call(f'set{k}', getattr(c, 'set' + k), v)
            model[k] = v
        elif op == 'bad':
            if k in ('RuptureDict', 'StationDict'):
                bad = inp.choice(f'bad{i}', ['text', [1], None, 3])
                r, e = inp.raises(getattr(c, 'set' + k), bad)
                inp.check(isinstance(e, TypeError), lambda: f'set{k}({bad!r}): {e!r}')
        else:
            inp.call('close', c.close)
            c = inp.call('load', S.ShakeMapOutputContainer.load, path)
    inp.reach('records')
    for k in names:
        r, e = inp.raises(getattr(c, 'get' + k))
        if k in model:
            inp.check(e is None and same(inp, model[k], r), lambda: f'get{k} -> {r!r} {e!r}, stored {model[k]!r}')
        elif k == 'VersionHistory':
            inp.check(e is None and r == {}, lambda: f'get{k} unset -> {r!r} {e!r}')
        else:
            inp.check(isinstance(e, REC[k]), lambda: f'get{k} unset -> {r!r} {e!r}')
    c.close()


def imts(inp):
    """IMT layers keep values and metadata per IMT and component; grids and
    points never mix"""
    S, path = prepare(inp)
    c = inp.call('create', S.ShakeMapOutputContainer.create, path)
    model, dtype = {}, None
    for i in range(inp.p['steps']):
        imt = inp.choice(f'imt{i}', ['MMI', 'PGA'])
        comp = inp.choice(f'comp{i}', ['Larger', 'rotd50'])
        op = inp.choice(f'op{i}', ['grid', 'points', 'short', 'drop'] if i else ['grid', 'points', 'short'])
        n = inp.int(f'v{i}', -1000, 1000)
        m, s = arr(inp, n, n + 1), arr(inp, n + 2, n + 3)
        if not inp.symbolic:
            m, s = m.astype(float), s.astype(float)
        mm, sm = {'u': n}, {'u': n - 1, 'w': 'x'}
        lo, la = arr(inp, n + 4, 0), arr(inp, 1, n + 5)
        ids = np.array([b'a', b'b'])
        if op == 'grid':
            if dtype == 'points' or (imt, comp) in model:
                r, e = inp.raises(c.setIMTGrids, imt, m, mm, s, sm, comp)
                inp.check(e is not None and (dtype != 'points' or isinstance(e, TypeError)), lambda: f'grid {imt} {comp} accepted: {e!r}')
            else:
                inp.call('setIMTGrids', c.setIMTGrids, imt, m, mm, s, sm, comp)
                dtype = 'grid'
                model[imt, comp] = (m, mm, s, sm)
        elif op == 'points':
            if dtype == 'grid' or (imt, comp) in model:
                r, e = inp.raises(c.setIMTArrays, imt, lo, la, ids, m, mm, s, sm, comp)
                inp.check(e is not None and (dtype != 'grid' or isinstance(e, TypeError)), lambda: f'points {imt} {comp} accepted: {e!r}')
            else:
                inp.call('setIMTArrays', c.setIMTArrays, imt, lo, la, ids, m, mm, s, sm, comp)
                dtype = 'points'
                model[imt, comp] = (m, mm, s, sm, lo, la, ids)
        elif op == 'short':
            w = inp.choice(f'short{i}', range(5))
            a = [lo, la, ids, m, s]
            a[w] = a[w][:1]
            if dtype != 'grid':
                r, e = inp.raises(c.setIMTArrays, imt, a[0], a[1], a[2], a[3], mm, a[4], sm, comp)
                inp.check(isinstance(e, ValueError), lambda: f'arrays of different shapes ({w}): {e!r}')
        elif dtype is not None:
            r, e = inp.raises(c.dropIMT, imt)
            have = [k for k in model if k[0] == imt]
            if have:
                inp.check(e is None, lambda: f'dropIMT {e!r}')
                for k in have:
                    del model[k]
    inp.call('close', c.close)
    c = inp.call('load', S.ShakeMapOutputContainer.load, path)
    inp.reach('imts')
    inp.check(c.getDataType() == dtype, lambda: f'data type {c.getDataType()}, expected {dtype}')
    allv = inp.call('getIMTs', c.getIMTs)
    inp.check(sorted(allv) == sorted(b + '/' + a for a, b in model), lambda: f'getIMTs {allv}, stored {sorted(model)}')
    for imt in ('MMI', 'PGA'):
        cs = inp.call('getComponents', c.getComponents, imt)
        inp.check(sorted(cs) == sorted(b for a, b in model if a == imt), lambda: f'getComponents({imt}) {cs}, stored {sorted(model)}')
    for comp in sorted(set(b for a, b in model)):
        got = inp.call('getIMTs', c.getIMTs, comp)
        inp.check(sorted(got) == sorted(a for a, b in model if b == comp), lambda: f'getIMTs({comp}) {got}, stored {sorted(model)}')
    for (imt, comp), v in model.items():
        get, other = (c.getIMTGrids, c.getIMTArrays) if dtype == 'grid' else (c.getIMTArrays, c.getIMTGrids)
        d = inp.call('get', get, imt, comp)
        keys = ['mean', 'mean_metadata', 'std', 'std_metadata'] + (['lons', 'lats', 'ids'] if dtype == 'points' else [])
        inp.check(sorted(d) == sorted(keys), lambda: f'{imt} {comp}: keys {sorted(d)}')
        for k, want in zip(keys, v):
            inp.check(same(inp, want, d[k]), lambda: f'{imt} {comp} {k}: {d[k]!r}, stored {want!r}')
        r, e = inp.raises(other, imt, comp)
        inp.check(isinstance(e, TypeError), lambda: f'{imt} {comp} readable as the other type: {r!r} {e!r}')
    for imt in ('MMI', 'PGA'):
        for comp in ('Larger', 'rotd50'):
            if (imt, comp) not in model and dtype:
                r, e = inp.raises(c.getIMTGrids if dtype == 'grid' else c.getIMTArrays, imt, comp)
                inp.check(isinstance(e, LookupError), lambda: f'missing {imt} {comp}: {r!r} {e!r}')
    c.close()


def compress(inp):
    """the compression argument decides how the layers are stored"""
    S, path = prepare(inp)
    c = inp.call('create', S.ShakeMapOutputContainer.create, path)
    comp = inp.choice('comp', [True, False, None])
    kw = {} if comp is None else {'compression': comp}
    m = arr(inp, 1, 2)
    if inp.flag('grid'):
        inp.call('set', c.setIMTGrids, 'MMI', m, {}, m, {}, 'Larger', **kw)
        names = ['mean', 'std']
    else:
        inp.call('set', c.setIMTArrays, 'MMI', m, m, np.array([b'a', b'b']), m, {}, m, {}, 'Larger', **kw)
        names = ['lons', 'lats', 'ids', 'mean', 'std']
    inp.reach('compress')
    for n in names:
        got = c._hdfobj['arrays']['imts']['Larger']['MMI'][n].compression
        inp.check(bool(got) == (comp is not False), lambda: f'compression={comp}: {n} stored with {got}')
    c.close()


HARNESSES = [
    H(grouped, quick=[dict(kinds=[k], steps=3) for k in KINDS],
      thorough=[dict(kinds=[k], steps=3) for k in KINDS] + [dict(kinds=[a, b], steps=3) for a in KINDS for b in KINDS if a < b],
      bounds='histories of 3 set/drop/get operations, groups of depth 0..2, two names, symbolic payloads', reach=['audited']),
    H(records, quick=[dict(names=[a, b], steps=3) for a, b in
                      (('Config', 'RuptureDict'), ('StationDict', 'Metadata'), ('VersionHistory', 'RuptureDict'))],
      bounds='histories of 3 set / rejected set / reload operations over two records', reach=['records']),
    H(imts, quick=[dict(steps=2)], thorough=[dict(steps=3)], bounds='histories of 2 (thorough 3) operations over two IMTs and two components, grid and point data, symbolic values', reach=['imts'], max_paths=40000),
    H(compress, bounds='compression on, off and defaulted', reach=['compress']),
]
ASSUMPTIONS = ['h5py and json are modelled; every path witness is replayed on the real libraries',
               'records rejected for other reasons than their type (for instance values JSON cannot represent) are outside the claim']
