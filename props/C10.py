"""Named storage in the (older) HDF container: a map per kind of item."""
import os

import numpy as np

from sx.harness import H

KINDS = ['Dictionary', 'List', 'String', 'Array']
PLURAL = {'Dictionary': 'getDictionaries', 'List': 'getLists', 'String': 'getStrings', 'Array': 'getArrays',
          'DataFrame': 'getDataFrames'}


def prepare(inp):
    if inp.symbolic:
        from sx import fakeh5
        fakeh5.install(inp)
    C = inp.mod('impactutils.io.container')
    return C, os.path.join(inp.scratch(), 'c.hdf')


def payload(inp, kind, i):
    n = inp.int(f'v{i}', -1000000, 1000000)
    if kind == 'Dictionary':
        s = inp.string(f's{i}', 0, 1, 'a"\xe9')
        return {'n': n, 's': s, 'l': [n, None, True, {'x': s}], 'e': {}}
    if kind == 'List':
        return [n, inp.string(f's{i}', 0, 1, 'a\\'), [n, n], None]
    if kind == 'String':
        return inp.string(f's{i}', 0, 2, 'a \n\xe9\u2603')
    if inp.symbolic:
        a = np.empty((2, 2), dtype=object)
        a[0, 0], a[0, 1], a[1, 0], a[1, 1] = n, n + 1, -n, 0
        return a
    return np.array([[n, n + 1], [-n, 0]])


def same(inp, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape:
            return False
        return inp.all([x == y for x, y in zip(a.flat, b.flat)])
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and inp.all([same(inp, a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and inp.all([same(inp, x, y) for x, y in zip(a, b)])
    if inp.pytype(a) is not inp.pytype(b) and not isinstance(b, np.generic):
        return False
    return a == b


def put(c, kind, name, v, meta=None, comp=None):
    f = getattr(c, 'set' + kind)
    if kind == 'Array':
        kw = {}
        if meta is not None:
            kw['metadata'] = meta
        if comp is not None:
            kw['compression'] = comp
        return f(name, v, **kw)
    return f(name, v)


def fetch(c, kind, name):
    r = getattr(c, 'get' + kind)(name)
    return r[0] if kind == 'Array' else r


def audit(inp, c, model, when):
    """every stored item reads back, and the listings are exact"""
    for kind in KINDS:
        items = [(n, v) for k, n, v in model if k == kind]
        got = inp.call(f'{when}: {PLURAL[kind]}', getattr(c, PLURAL[kind]))
        inp.check(isinstance(got, list) and len(got) == len(items),
                  lambda: f'{when}: {PLURAL[kind]} lists {got}, expected {[n for n, v in items]}')
        for n, v in items:
            inp.check(inp.any([n == g for g in got]), lambda: f'{when}: {kind} {n!r} not in {got}')
            r = inp.call(f'{when}: get{kind}', fetch, c, kind, n)
            inp.check(same(inp, v, r), lambda: f'{when}: {kind} {n!r} reads back {r!r}, stored {v!r}')


def history(inp):
    C, path = prepare(inp)
    c = inp.call('create', C.HDFContainer.create, path)
    model = []
    names = [inp.string(f'name{i}', 1, inp.p.get('nl', 1), 'ab') for i in range(2)]
    kinds = inp.p['kinds']
    for i in range(inp.p['steps']):
        kind = inp.choice(f'kind{i}', kinds)
        name = names[inp.choice(f'who{i}', [0, 1])] if i else names[0]
        held = [k for k, (kk, n, v) in enumerate(model) if kk == kind and n == name]
        op = inp.choice(f'op{i}', ['set', 'drop', 'get', 'reload'] if i else ['set', 'get', 'drop'])
        if op == 'set':
            v = payload(inp, kind, i)
            if held:
                r, e = inp.raises(put, c, kind, name, v)
                inp.check(e is not None, lambda: f'step {i}: second {kind} {name!r} accepted')
            else:
                inp.call(f'step {i}: set{kind}', put, c, kind, name, v)
                model.append((kind, name, v))
        elif op == 'drop':
            if held:
                inp.call(f'step {i}: drop{kind}', getattr(c, 'drop' + kind), name)
                del model[held[0]]
            else:
                r, e = inp.raises(getattr(c, 'drop' + kind), name)
                inp.check(isinstance(e, LookupError), lambda: f'step {i}: drop{kind} of missing {name!r}: {e!r}')
        elif op == 'get':
            if held:
                inp.call(f'step {i}: get{kind}', fetch, c, kind, name)
            else:
                r, e = inp.raises(fetch, c, kind, name)
                inp.check(isinstance(e, LookupError), lambda: f'step {i}: get{kind} of missing {name!r}: {r!r} {e!r}')
        else:
            inp.call('close', c.close)
            c = inp.call('load', C.HDFContainer.load, path)
    inp.reach('audited')
    audit(inp, c, model, 'end')
    inp.call('close', c.close)
    c = inp.call('load', C.HDFContainer.load, path)
    audit(inp, c, model, 'reloaded')
    inp.check(c.getFileName() == path, 'file name')
    c.close()


def metadata(inp):
    """array metadata is returned with the array it was stored with"""
    C, path = prepare(inp)
    c = inp.call('create', C.HDFContainer.create, path)
    a = inp.int('a', -9, 9)
    s = inp.string('s', 0, 2, 'ab')
    meta = inp.choice('m', [None, {'k': a, 't': s}, {}])
    comp = inp.choice('comp', [None, True, False])
    v1, v2 = payload(inp, 'Array', 1), payload(inp, 'Array', 2)
    inp.call('set', put, c, 'Array', 'one', v1, meta, comp)
    inp.call('set', put, c, 'Array', 'two', v2, {'k': a + 1}, comp)
    inp.call('close', c.close)
    c = inp.call('load', C.HDFContainer.load, path)
    inp.reach('meta')
    for n, v, m in (('one', v1, meta or {}), ('two', v2, {'k': a + 1})):
        d, md = inp.call('getArray', c.getArray, n)
        inp.check(same(inp, v, d), lambda: f'{n}: {d!r} stored {v!r}')
        inp.check(sorted(md) == sorted(m) and inp.all([md[k] == m[k] for k in m]), lambda: f'{n}: metadata {md!r}, stored {m!r}')
    c.close()


def frames(inp):
    import pandas as pd
    C, path = prepare(inp)
    c = inp.call('create', C.HDFContainer.create, path)
    t = pd.to_datetime(['2019-01-02T03:04:05', '1950-06-07T08:09:10'])
    dfs = [pd.DataFrame({'x': [1, 2], 'y': ['p', 'q']}), pd.DataFrame({'t': t, 'z': [1.5, -2.25]}),
           pd.DataFrame({'modified': ['a', 'b'], 'date': [3, 4]}), pd.DataFrame({'b': [1], 'a': [2]})]
    i, j = inp.choice('i', range(4)), inp.choice('j', range(4))
    drop = inp.choice('drop', [None, 'f', 'fg'])
    inp.call('set', c.setDataFrame, 'f', dfs[i])
    inp.call('set', c.setDataFrame, 'fg', dfs[j])
    inp.call('set', c.setString, 'f', 'text')
    model = {'f': dfs[i], 'fg': dfs[j]}
    if drop:
        inp.call('drop', c.dropDataFrame, drop)
        del model[drop]
        r, e = inp.raises(c.getDataFrame, drop)
        inp.check(isinstance(e, LookupError), lambda: f'dropped frame: {r!r} {e!r}')
    r, e = inp.raises(c.dropDataFrame, 'zzz')
    inp.check(isinstance(e, LookupError), lambda: f'drop of missing frame: {e!r}')
    inp.check(sorted(c.getDataFrames()) == sorted(model), lambda: f'listing {c.getDataFrames()}')
    inp.reach('frames')
    for n, d in model.items():
        g = inp.call('getDataFrame', c.getDataFrame, n)
        inp.check(list(g.columns) == list(d.columns) and len(g) == len(d) and
                  all(list(g[k]) == list(d[k]) for k in d.columns), lambda: f'{n}: {g} stored {d}')
    c.close()


PAIRS = [['Dictionary', 'List'], ['String', 'Array'], ['Dictionary', 'String'], ['List', 'Array']]
HARNESSES = [
    H(history, quick=[dict(kinds=k, steps=3) for k in PAIRS] + [dict(kinds=[k], steps=3, nl=2) for k in KINDS],
      thorough=[dict(kinds=[k], steps=4, nl=2) for k in KINDS] + [dict(kinds=[a, b], steps=3, nl=2) for a in KINDS for b in KINDS if a < b],
      bounds='histories of up to 3 (thorough 4) set/get/drop/reload operations over two symbolic names (1 letter with two kinds of item, 2 letters with one; thorough 2 letters) and two kinds of item, symbolic payloads',
      reach=['audited'], max_paths=20000),
    H(metadata, bounds='two arrays, symbolic metadata values', reach=['meta']),
    H(frames, bounds='four concrete data frames (integers, floats, text, times, columns named like dates)', reach=['frames']),
]
ASSUMPTIONS = ['h5py and json are modelled (groups as name-to-object maps, JSON as an exactly invertible encoding); every path witness is replayed on the real libraries',
               'names contain no slash; strings contain no NUL; data frames are concrete']
