"""In-memory model of the h5py calls the containers make, with symbolic names
and payloads; and of JSON text as an opaque, exactly invertible encoding.
Path witnesses are replayed against the real h5py and json."""
import copy
import json

import numpy as np

from . import calls, strs
from .vals import is_sym, Sym, SBool
from .strs import SStr, SBytes, has_sym

FILES = {}


def reset():
    FILES.clear()


class JsonText(Sym):
    """text produced by json.dumps of a structure with symbolic leaves"""
    _pytype = str

    def __init__(self, obj, kind=str):
        self.obj = obj
        self._pytype = kind

    def encode(self, *a):
        return JsonText(self.obj, bytes)

    def decode(self, *a):
        return JsonText(self.obj, str)


def norm(o):
    if isinstance(o, SBytes) or isinstance(o, bytes):
        raise TypeError('Object of type bytes is not JSON serializable')
    if is_sym(o):
        return o
    if isinstance(o, dict):
        return {(k if isinstance(k, (str, SStr)) else json.loads(json.dumps({k: 0})).popitem()[0] if False else _key(k)): norm(v)
                for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [norm(x) for x in o]
    return json.loads(json.dumps(o))


def _key(k):
    return list(json.loads(json.dumps({k: 0})))[0]


def dumps(o, **kw):
    return JsonText(norm(o))


def loads(t, **kw):
    if isinstance(t, JsonText):
        return copy.deepcopy(t.obj)
    return json.loads(strs.plain(t))


class Attrs:
    def __init__(self):
        self.d = {}

    def __setitem__(self, k, v):
        if v is None or isinstance(v, dict):
            raise TypeError('no native HDF5 equivalent')
        self.d[k] = np.array(v) if isinstance(v, (list, tuple)) and not has_sym(v) else v

    def __getitem__(self, k):
        return self.d[k]

    def __contains__(self, k):
        return k in self.d

    def items(self):
        return list(self.d.items())

    def keys(self):
        return list(self.d.keys())

    def __iter__(self):
        return iter(self.keys())

    def get(self, k, default=None):
        return self.d.get(k, default)

    def update(self, o):
        for k, v in dict(o).items():
            self[k] = v


class Dataset:
    def __init__(self, data, compression=None):
        self._d = copy.deepcopy(data)
        self.attrs = Attrs()
        self.compression = compression

    @property
    def shape(self):
        return np.shape(self._d) if isinstance(self._d, np.ndarray) else ()

    def __getitem__(self, k):
        if k == ():
            d = self._d
            return copy.deepcopy(d)
        return self._d[k]

    def __len__(self):
        return len(self._d)


class Group:
    def __init__(self, root):
        self._k = []          # [(name, child)]
        self.root = root

    def _check(self):
        if self.root.closed:
            raise ValueError('Invalid location identifier')

    def _find(self, name):
        self._check()
        if isinstance(name, str) and '/' in name:
            g = self
            for part in [p for p in name.split('/') if p]:
                if not isinstance(g, Group):
                    return None
                g = g._find(part)
                if g is None:
                    return None
            return g
        for k, v in self._k:
            if k == name:
                return v
        return None

    def __contains__(self, name):
        return self._find(name) is not None

    def __getitem__(self, name):
        v = self._find(name)
        if v is None:
            raise KeyError("Unable to open object (object doesn't exist)")
        return v

    def get(self, name, default=None):
        v = self._find(name)
        return default if v is None else v

    def __delitem__(self, name):
        self._check()
        for i, (k, v) in enumerate(self._k):
            if k == name:
                del self._k[i]
                return
        raise KeyError("Couldn't delete link (doesn't exist)")

    def _put(self, name, obj):
        if self._find(name) is not None:
            raise ValueError('Unable to create (name already exists)')
        self._k.append((name, obj))
        return obj

    def create_group(self, name):
        return self._put(name, Group(self.root))

    def require_group(self, name):
        v = self._find(name)
        return v if v is not None else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, compression=None, **kw):
        self._check()
        if compression and not (isinstance(data, np.ndarray) and data.shape != ()):
            raise TypeError("Scalar datasets don't support chunk/filter options")
        return self._put(name, Dataset(data, compression))

    def keys(self):
        self._check()
        import functools
        return sorted([k for k, v in self._k], key=functools.cmp_to_key(
            lambda a, b: -1 if a < b else (0 if a == b else 1)))

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._k)


class Root:
    def __init__(self):
        self.closed = False
        self.tree = Group(self)


class File(Group):
    def __init__(self, name, mode='r', **kw):
        self.filename = name
        self.mode = mode
        self.closed = False
        if mode in ('w', 'w-', 'x') or (mode == 'a' and name not in FILES):
            if mode in ('w-', 'x') and name in FILES:
                raise FileExistsError(name)
            FILES[name] = []
        elif name not in FILES:
            raise FileNotFoundError(name)
        self._k = FILES[name]
        self.root = self
        self._reroot(self)

    def _reroot(self, g):
        for k, v in g._k:
            if isinstance(v, Group):
                v.root = self
                self._reroot(v)

    def _check(self):
        if self.closed:
            raise ValueError('Invalid location identifier')

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __bool__(self):
        return not self.closed


def install(inp):
    """symbolic mode only"""
    import h5py
    reset()
    inp.override(h5py.File, File)
    inp.override(json.dumps, lambda o, **k: dumps(o) if has_sym(o, 6) else json.dumps(o, **k))
    inp.override(json.loads, lambda t, **k: loads(t) if is_sym(t) else json.loads(t, **k))
