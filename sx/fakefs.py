"""A small file-system model for symbolic runs and, for replays, the real file
system confined to a scratch directory by an audit hook."""
import builtins
import errno
import io
import os
import shutil
import sys
import tempfile
import types


class Escape(OSError):
    pass


GUARD = {'dir': None, 'hook': False}
PATHS = {'os.mkdir': (0,), 'os.rename': (0, 1), 'os.remove': (0,), 'os.rmdir': (0,), 'os.symlink': (0, 1),
         'os.link': (0, 1), 'os.truncate': (0,), 'os.chmod': (0,), 'os.chown': (0,), 'shutil.rmtree': (0,),
         'shutil.move': (0, 1), 'shutil.copyfile': (1,), 'shutil.copytree': (1,), 'os.utime': (0,)}


def _hook(event, args):
    d = GUARD['dir']
    if d is None:
        return
    if event == 'open':
        path, mode, flags = args
        if not isinstance(path, (str, bytes)):
            return
        if not (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
            return
        targets = [path]
    elif event in PATHS:
        targets = [args[i] for i in PATHS[event] if isinstance(args[i], (str, bytes))]
    elif event in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'socket.connect'):
        raise Escape(errno.EPERM, f'{event} is not allowed here')
    else:
        return
    for p in targets:
        p = os.fsdecode(p)
        if p == '/dev/null':
            continue
        q = os.path.realpath(p)
        if q != d and not q.startswith(d + '/'):
            raise Escape(errno.EPERM, f'{event} outside the scratch directory: {p}')


def guard(d):
    if not GUARD['hook']:
        sys.addaudithook(_hook)
        GUARD['hook'] = True
    GUARD['dir'] = d and os.path.realpath(d)


class Node:
    __slots__ = ('parts', 'kind', 'content', 'mode', 'times')

    def __init__(self, parts, kind, content=None):
        self.parts, self.kind, self.content = parts, kind, content
        self.mode, self.times = (0o755 if kind == 'd' else 0o644), (0, 0)


class FakeFile:
    def __init__(self, fs, node, mode, path):
        self.fs, self.node, self.mode, self.name = fs, node, mode, path
        self.binary = 'b' in mode
        self.pos = 0
        self.closed = False

    def _data(self):
        d = self.node.content
        return d

    def read(self, n=-1):
        d = self.node.content
        d = d[self.pos:] if n is None or n < 0 else d[self.pos:self.pos + n]
        self.pos += len(d)
        if self.binary:
            return d.encode('latin-1') if isinstance(d, str) else (d.encode('utf-8') if hasattr(d, 'cs') and not
                                                                   self.fs.isbytes(d) else d)
        return d

    def tell(self):
        return self.pos if 'r' in self.mode else len(self.node.content)

    def truncate(self, n=None):
        if n is not None:
            self.node.content = self.node.content[:n]

    def readlines(self):
        return self.read().splitlines(True)

    def readline(self):
        r = self.read()
        ls = r.splitlines(True)
        if not ls:
            return ''
        self.pos = self.pos - len(r) + len(ls[0])
        return ls[0]

    def __iter__(self):
        return iter(self.readlines())

    def write(self, s):
        self.fs.point('write', self.name)
        self.node.content = self.node.content + self.fs.text(s)
        return len(s)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def fileno(self):
        raise OSError('no descriptor')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FS:
    def __init__(self, cwd):
        self.nodes = []
        self._cwd = '/'
        self.fault = None
        self.mkdirs(cwd)
        self._cwd = cwd
        self.ntemp = 0
        self.log = []

    # -- helpers
    def isbytes(self, d):
        return isinstance(d, bytes) or type(d).__name__ == 'SBytes'

    def text(self, s):
        if isinstance(s, bytes):
            return s.decode('latin-1')
        if self.isbytes(s):
            return s.decode('latin-1')
        return s

    def parts(self, p):
        if isinstance(p, os.PathLike) and not hasattr(p, 'cs'):
            p = os.fspath(p)
        if isinstance(p, bytes) or getattr(p, 'kind', None) is bytes:
            p = p.decode('latin-1')
        if len(p) == 0:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', '')
        out = []
        if not (p[:1] == '/'):
            out = list(self.parts(self._cwd))
        for c in p.split('/'):
            if len(c) == 0 or c == '.':
                continue
            if c == '..':
                if out:
                    out.pop()
                continue
            out.append(c)
        return out

    def eq(self, a, b):
        if len(a) != len(b):
            return False
        # concrete components first
        for x, y in zip(a, b):
            if isinstance(x, str) and isinstance(y, str) and x != y:
                return False
            if len(x) != len(y):
                return False
        for x, y in zip(a, b):
            if x is y or (isinstance(x, str) and isinstance(y, str)):
                continue
            if not x == y:
                return False
        return True

    def find(self, parts):
        for n in self.nodes:
            if self.eq(n.parts, parts):
                return n
        return None

    def kind(self, parts):
        if not parts:
            return 'd'
        n = self.find(parts)
        return n and n.kind

    def point(self, op, path):
        self.log.append((op, path))
        if self.fault:
            self.fault(op, path)

    def noent(self, p):
        return FileNotFoundError(errno.ENOENT, 'No such file or directory', str(p) if isinstance(p, str) else 'path')

    def need_parent(self, parts, p):
        k = self.kind(parts[:-1])
        if k is None:
            raise self.noent(p)
        if k != 'd':
            raise NotADirectoryError(errno.ENOTDIR, 'Not a directory')

    def mkdirs(self, p):
        ps = self.parts(p)
        for i in range(1, len(ps) + 1):
            if self.find(ps[:i]) is None:
                self.nodes.append(Node(ps[:i], 'd'))

    # -- os / os.path
    def isfile(self, p):
        try:
            return self.kind(self.parts(p)) == 'f'
        except OSError:
            return False

    def isdir(self, p):
        try:
            return self.kind(self.parts(p)) == 'd'
        except OSError:
            return False

    def exists(self, p):
        try:
            return self.kind(self.parts(p)) is not None
        except OSError:
            return False

    def islink(self, p):
        return False

    def getcwd(self):
        return self._cwd

    def makedirs(self, p, mode=0o777, exist_ok=False):
        ps = self.parts(p)
        k = self.kind(ps)
        if k == 'd' and exist_ok:
            return
        if k is not None:
            raise FileExistsError(errno.EEXIST, 'File exists')
        for i in range(1, len(ps)):
            k = self.kind(ps[:i])
            if k == 'f':
                raise NotADirectoryError(errno.ENOTDIR, 'Not a directory')
        self.point('mkdir', p)
        self.mkdirs(p)

    def mkdir(self, p, mode=0o777):
        ps = self.parts(p)
        if self.kind(ps) is not None:
            raise FileExistsError(errno.EEXIST, 'File exists')
        self.need_parent(ps, p)
        self.point('mkdir', p)
        self.nodes.append(Node(ps, 'd'))

    def remove(self, p):
        n = self.find(self.parts(p))
        if n is None:
            raise self.noent(p)
        if n.kind == 'd':
            raise IsADirectoryError(errno.EISDIR, 'Is a directory')
        self.point('remove', p)
        self.nodes.remove(n)

    def rename(self, a, b):
        pa, pb = self.parts(a), self.parts(b)
        n = self.find(pa)
        if n is None:
            raise self.noent(a)
        self.need_parent(pb, b)
        m = self.find(pb)
        if m is not None and m.kind == 'd' and n.kind == 'f':
            raise IsADirectoryError(errno.EISDIR, 'Is a directory')
        self.point('rename', b)
        if m is not None and m is not n:
            self.nodes.remove(m)
        if n.kind == 'd':
            for x in self.nodes:
                if x is not n and len(x.parts) > len(pa) and self.eq(x.parts[:len(pa)], pa):
                    x.parts = pb + x.parts[len(pa):]
        n.parts = pb

    def children(self, ps):
        return [n for n in self.nodes if len(n.parts) == len(ps) + 1 and self.eq(n.parts[:-1], ps)]

    def listdir(self, p='.'):
        ps = self.parts(p)
        if self.kind(ps) is None:
            raise self.noent(p)
        return [n.parts[-1] for n in self.children(ps)]

    def walk(self, top, topdown=True, onerror=None, followlinks=False):
        from . import calls
        try:
            ps = self.parts(top)
        except OSError:
            return
        if self.kind(ps) != 'd':
            return
        ch = self.children(ps)
        dirs = [n.parts[-1] for n in ch if n.kind == 'd']
        files = [n.parts[-1] for n in ch if n.kind == 'f']
        if topdown:
            yield top, dirs, files
        for d in dirs:
            yield from self.walk(calls.call(os.path.join, top, d), topdown)
        if not topdown:
            yield top, dirs, files

    def rmtree(self, p, ignore_errors=False, onerror=None):
        ps = self.parts(p)
        if self.kind(ps) is None and not ignore_errors:
            raise self.noent(p)
        self.nodes = [n for n in self.nodes if not (len(n.parts) >= len(ps) and self.eq(n.parts[:len(ps)], ps))]

    def getsize(self, p):
        n = self.find(self.parts(p))
        if n is None:
            raise self.noent(p)
        return len(n.content or '')

    def stat(self, p, *a, **k):
        ps = self.parts(p)
        n = self.find(ps) if ps else Node([], 'd')
        if n is None:
            raise self.noent(p)
        at, mt = n.times
        return types.SimpleNamespace(st_mode=(0o40000 if n.kind == 'd' else 0o100000) | n.mode, st_size=len(n.content or ''), st_atime=at, st_mtime=mt)

    def chmod(self, p, mode, *a, **k):
        n = self.find(self.parts(p))
        if n is None:
            raise self.noent(p)
        n.mode = mode

    def utime(self, p, times=None, **k):
        n = self.find(self.parts(p))
        if n is None:
            raise self.noent(p)
        if times is not None:
            n.times = times

    # -- files
    def open(self, p, mode='r', *a, **k):
        ps = self.parts(p)
        n = self.find(ps)
        if 'r' in mode and '+' not in mode:
            if n is None:
                raise self.noent(p)
            if n.kind == 'd':
                raise IsADirectoryError(errno.EISDIR, 'Is a directory')
            return FakeFile(self, n, mode, p)
        if n is not None and n.kind == 'd':
            raise IsADirectoryError(errno.EISDIR, 'Is a directory')
        if 'x' in mode and n is not None:
            raise FileExistsError(errno.EEXIST, 'File exists')
        self.need_parent(ps, p)
        self.point('open', p)
        if n is None:
            n = Node(ps, 'f', '')
            self.nodes.append(n)
        elif 'w' in mode:
            n.content = ''
        return FakeFile(self, n, mode, p)

    def copyfile(self, src, dst, *a, **k):
        n = self.find(self.parts(src))
        if n is None:
            raise self.noent(src)
        if n.kind == 'd':
            raise IsADirectoryError(errno.EISDIR, 'Is a directory')
        pd = self.parts(dst)
        m = self.find(pd)
        if m is n:
            raise shutil.SameFileError('same file')
        f = self.open(dst, 'w')
        full = n.content
        try:
            self.point('copy', dst)
        except OSError:
            f.node.content = full[:len(full) // 2]
            raise
        f.node.content = full
        return dst

    def copy(self, src, dst, *a, **k):
        from . import calls
        if self.isdir(dst):
            dst = calls.call(os.path.join, dst, calls.call(os.path.basename, src))
        return self.copyfile(src, dst)

    def move(self, src, dst, *a, **k):
        from . import calls
        if self.isdir(dst):
            dst = calls.call(os.path.join, dst, calls.call(os.path.basename, src))
        self.rename(src, dst)
        return dst

    def mkdtemp(self, *a, **k):
        self.ntemp += 1
        p = f'/tmp/t{self.ntemp}'
        self.mkdirs(p)
        return p

    def install(self, inp):
        o = inp.override
        for f, r in ((os.path.isfile, self.isfile), (os.path.isdir, self.isdir), (os.path.exists, self.exists),
                     (os.path.lexists, self.exists), (os.path.islink, self.islink), (os.path.getsize, self.getsize),
                     (os.getcwd, self.getcwd), (os.makedirs, self.makedirs), (os.mkdir, self.mkdir),
                     (os.remove, self.remove), (os.unlink, self.remove), (os.rename, self.rename),
                     (os.replace, self.rename), (os.listdir, self.listdir), (os.walk, self.walk),
                     (shutil.copyfile, self.copyfile), (shutil.copy, self.copy), (shutil.copy2, self.copy),
                     (shutil.move, self.move), (shutil.rmtree, self.rmtree), (tempfile.mkdtemp, self.mkdtemp),
                     (os.stat, self.stat), (os.chmod, self.chmod), (os.utime, self.utime), (builtins.open, self.open), (io.open, self.open),
                     (os.path.abspath, lambda p: inp.mod('sx.shims')._py_normpath(
                         p if p[:1] == '/' else self._cwd + '/' + p)),
                     (os.path.realpath, lambda p, **k: inp.mod('sx.calls').call(os.path.abspath, p))):
            o(f, r)


class World:
    """Files for a harness: the model (symbolic) or a scratch directory."""

    def __init__(self, inp):
        self.inp = inp
        if inp.symbolic:
            self.base = '/S'
            self.fs = FS('/S/cwd')
            self.fs.install(inp)
            guard(inp.scratch())
        else:
            self.base = os.path.realpath(inp.scratch())
            self.fs = None
            os.makedirs(os.path.join(self.base, 'cwd'))
            self.old = os.getcwd()
            os.chdir(os.path.join(self.base, 'cwd'))
            tempfile.tempdir = self.base
            guard(self.base)

    def done(self):
        guard(None)
        if not self.inp.symbolic:
            os.chdir(self.old)
            tempfile.tempdir = None

    def p(self, *parts):
        r = self.base
        for x in parts:
            r = r + '/' + x
        return r

    def mkdir(self, p):
        self.fs.mkdirs(p) if self.fs else os.makedirs(p, exist_ok=True)

    def write(self, p, content):
        if self.fs:
            d, b = self._split(p)
            self.fs.mkdirs(d)
            n = self.fs.find(self.fs.parts(p))
            if n is None:
                self.fs.nodes.append(Node(self.fs.parts(p), 'f', content))
            else:
                n.content = content
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', newline='') as f:
                f.write(content)

    def _split(self, p):
        from . import calls
        return calls.call(os.path.split, p)

    def files(self, top):
        """[(components relative to top, content)]"""
        if self.fs:
            ps = self.fs.parts(top)
            return [(n.parts[len(ps):], n.content) for n in self.fs.nodes
                    if n.kind == 'f' and len(n.parts) > len(ps) and self.fs.eq(n.parts[:len(ps)], ps)]
        out = []
        for r, d, fs in os.walk(top):
            for f in fs:
                q = os.path.join(r, f)
                with open(q, newline='') as fh:
                    out.append((os.path.relpath(q, top).split('/'), fh.read()))
        return out

    def expect(self, top, want, what):
        """the files under top are exactly `want` [(components, content)]"""
        inp = self.inp
        got = self.files(top)
        for parts, content in want:
            hit = []
            for gp, gc in got:
                if len(gp) == len(parts) and inp.all([a == b for a, b in zip(gp, parts)]):
                    hit.append(gc)
            if not hit:
                inp.fail(f'{what}: file {show(parts)} missing; present {[show(g[0]) for g in got]}')
            inp.check(hit[0] == content, lambda: f'{what}: content of {show(parts)} is {hit[0]!r}, expected {content!r}')
        inp.check(len(got) == len(want), lambda: f'{what}: files {[show(g[0]) for g in got]}, expected {[show(w[0]) for w in want]}')


def show(parts):
    return '/'.join(str(p) if isinstance(p, str) else '?' for p in parts)
