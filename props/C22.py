"""The copy protocol: what both ends hold after a transfer."""
import os
import socket

from sx.harness import H
from sx.fakefs import World, show
from sx import fakessh

M = 'impactutils.extern.scp.scp'


class Hang(BaseException):
    """the client waits or repeats for ever"""


def text(b):
    return b if isinstance(b, str) or getattr(b, 'kind', None) is str else b.decode('latin-1')


class Channel:
    """one end of a connection; the other end is played by `on_data`"""

    def __init__(self, inp, fault=None):
        self.inp, self.fault = inp, fault
        self.command = self.wait = None
        self.answers = []
        self.closed = False
        self.count = self.steps = 0
        self.failed = False
        self.stderr = b''

    def settimeout(self, t):
        self.wait = t

    def exec_command(self, cmd):
        self.command = cmd
        self.started()

    def close(self):
        self.closed = True

    def step(self):
        self.steps += 1
        if self.steps > 300:
            raise Hang()

    def sendall(self, data):
        self.step()
        if self.closed:
            raise OSError('closed')
        self.on_data(text(data))

    def send(self, data):
        self.sendall(data)
        return len(data)

    def recv_stderr_ready(self):
        return len(self.stderr) > 0

    def recv_stderr(self, n):
        r, self.stderr = self.stderr, b''
        return r

    def recv(self, n):
        self.step()
        if not self.answers:
            raise socket.timeout('nothing to read')
        a = self.answers[0]
        if isinstance(a, BaseException):
            self.answers.pop(0)
            raise a
        if len(a) > n:
            self.answers[0] = a[n:]
            return a[:n]
        self.answers.pop(0)
        return a


KINDS = ['error', 'junk', 'gone', 'stderr', 'timeout']


class Sink(Channel):
    """remote end of put: an scp that receives"""

    def started(self):
        self.buf, self.need = '', None
        self.stack, self.files, self.dirs, self.time = [], [], [], None
        self.confirm()

    def confirm(self):
        k, self.count = self.count, self.count + 1
        if self.fault and k == self.fault[0]:
            kind, c = self.fault[1:]
            self.failed = True
            if kind == 'timeout':
                self.answers.append(socket.timeout('slow'))
            elif kind == 'gone':
                self.answers.append(b'')
            elif kind == 'stderr':
                self.stderr = b'no scp here'
                self.answers.append(b'')
            elif kind == 'error':
                self.answers.append(b'\x01scp: refused\n')
            else:
                self.answers.append(c)
        else:
            self.answers.append(b'\x00')

    def on_data(self, data):
        if self.failed:
            return
        self.buf = self.buf + data
        while len(self.buf):
            if self.need is not None:
                size, name, mode = self.need
                if len(self.buf) < size + 1:
                    return
                body, end = self.buf[:size], self.buf[size:size + 1]
                self.inp.check(end == '\x00', 'no end mark after the file')
                self.buf, self.need = self.buf[size + 1:], None
                self.files.append((self.stack + [name], body, mode, self.time))
                self.time = None
                self.confirm()
                continue
            i = 0
            while i < len(self.buf) and not self.buf[i] == '\n':
                i += 1
            if i == len(self.buf):
                return
            line, self.buf = self.buf[:i], self.buf[i + 1:]
            code = line[0:1]
            if code == 'C' or code == 'D':
                mode, size, name = line[1:].split(' ', 2)
                name = name.replace('\\^J', '\n')
                self.inp.check(len(name) > 0 and not self.inp.any([name[j] == '/' for j in range(len(name))]), lambda: f'name {name!r}')
                if code == 'C':
                    self.need = (int(size), name, int(mode, 8))
                else:
                    self.dirs.append((self.stack + [name], int(mode, 8), self.time))
                    self.stack, self.time = self.stack + [name], None
            elif code == 'E':
                self.inp.check(len(self.stack) > 0, 'left a directory that was not entered')
                self.stack = self.stack[:-1]
            elif code == 'T':
                mt, z, at, z2 = line[1:].split(' ')
                self.time = (self.inp.parse_int(mt), self.inp.parse_int(at))
            else:
                self.inp.fail(f'unknown message {line!r}')
            if self.need is None or True:
                self.confirm()


class Transport:
    def __init__(self, ch):
        self.ch, self.opened = ch, 0

    def open_session(self):
        self.opened += 1
        return self.ch


def content(inp, name, n):
    return inp.string(name, n, n, 'ab\n')


def stamp(inp, w, p, mode, times):
    if w.fs:
        n = w.fs.find(w.fs.parts(p))
        n.mode, n.times = mode, times
    else:
        os.chmod(p, mode)
        os.utime(p, times)


def quoted(inp, ch, words):
    """the command is these words of a shell command line"""
    got = list(fakessh.words(text(ch.command)))
    inp.check(len(got) == len(words) and inp.all([g[0] == 'w' and g[1] == x for g, x in zip(got, words)]), lambda: f'command {ch.command!r} expected {words}')


def faulty(inp):
    at = inp.choice('at', list(range(inp.p['faults'])) + [None])
    if at is None:
        return None
    kind = inp.choice('kind', KINDS)
    c = b''
    if kind == 'junk':
        c = inp.string('junk', 1, 1, '\x02\x03C\n\xff', kind='bytes')
    return at, kind, c


def put(inp):
    """files sent to the other end"""
    w = World(inp)
    try:
        S = inp.mod(M)
        ch = Sink(inp, faulty(inp))
        names, bodies, modes, times = [], [], [], []
        for i, n in enumerate(inp.p['sizes']):
            names.append(inp.string(f'f{i}', 1, inp.p.get('name', 1), "a '\n"))
            bodies.append(content(inp, f'c{i}', n))
            modes.append(inp.choice(f'm{i}', [0o644, 0o600]) if i == 0 else 0o755)
            times.append((inp.int(f'at{i}', 0, 9), inp.int(f'mt{i}', 0, 9)))
        for i in range(len(names)):
            for j in range(i):
                inp.assume(inp.no(names[i] == names[j]))
        paths = [w.p('cwd', 'd', n) for n in names]
        for p, b, m, t in zip(paths, bodies, modes, times):
            w.write(p, b)
            stamp(inp, w, p, m, t)
        steps = []
        kw = {}
        if inp.p.get('progress'):
            kw['progress'] = lambda name, size, sent: steps.append((name, size, sent))
        c = inp.call('ctor', S.SCPClient, Transport(ch), buff_size=inp.p['buff'], **kw)
        keep = inp.flag('keep')
        rn = inp.string('rn', 1, 2, "a '$")
        args = dict(preserve_times=True) if keep else {}
        files = paths[0] if len(paths) == 1 and inp.flag('single') else paths
        r, e = inp.raises(c.put, files, rn, **args)
        quoted(inp, ch, ['scp', '-t', rn])
        if ch.failed:
            inp.reach('refused')
            inp.check(isinstance(e, S.SCPException), lambda: f'failure {ch.fault}: {r} {e!r}')
            return
        inp.check(e is None, lambda: f'{e!r}')
        inp.reach('put')
        inp.check(ch.closed and ch.need is None and not ch.answers and not len(ch.buf), 'unfinished')
        inp.check(len(ch.files) == len(names), lambda: f'{ch.files}')
        for (path, body, mode, t), n, b, m, (at, mt) in zip(ch.files, names, bodies, modes, times):
            inp.check(len(path) == 1 and inp.all([path[0] == n, body == b]) and mode == m, lambda: f'{path} {body!r} {mode:o} expected {n!r} {b!r} {m:o}')
            inp.check(inp.all([t[0] == mt, t[1] == at]) if keep else t is None, lambda: f'times {t} expected {mt} {at}')
        if inp.p.get('progress'):
            last = {}
            for name, size, sent in steps:
                inp.check(0 <= sent <= size, lambda: f'{steps}')
            want = [max(len(b), 1) for b in bodies]
            inp.check([s[1] for s in steps if s[1] == s[2]] == want, lambda: f'{steps}')
    finally:
        w.done()


def changing(inp):
    """a file that is cut or grows after its size was told"""
    w = World(inp)
    try:
        S = inp.mod(M)
        told, real = inp.p['told'], inp.p['real']
        old, body = 'z' * told, content(inp, 'c', real)
        path = w.p('cwd', 'd', 'f')

        class Late(Sink):
            changed = False

            def on_data(self, data):
                if not self.changed:
                    self.changed = True
                    w.write(path, body)
                super().on_data(data)

        ch = Late(inp)
        w.write(path, old)
        c = inp.call('ctor', S.SCPClient, Transport(ch), buff_size=inp.choice('buff', [1, 2, 3, 5]))
        try:
            r, e = inp.raises(c.put, path, 'x')
        except Hang:
            r, e = None, 'hangs'
        inp.reach('changing')
        if e is None and len(ch.files) == 1 and ch.files[0][1] == old:
            return
        if real < told:
            inp.check(isinstance(e, S.SCPException), lambda: f'a file of {real} bytes announced as {told}: {r} {e!r}')
        else:
            inp.check(e is None and len(ch.files) == 1 and ch.files[0][1] == body[:told], lambda: f'{e!r} {ch.files}')
    finally:
        w.done()


TREES = {
    'flat': [(['d', 'x'], 1), (['d', 'y'], 0)],
    'deep': [(['d', 'a', 'b', 'x'], 1), (['d', 'a', 'y'], 1), (['d', 'z'], 1)],
    'like': [(['d', 'a', 'x'], 1), (['d', 'ab', 'y'], 1), (['d', 'b', 'a', 'z'], 1)],
    'side': [(['d', 'a', 'b', 'x'], 1), (['d', 'c', 'e', 'y'], 1)],
    'empty': [(['d', 'a', None], 0), (['d', 'b', 'y'], 1)],
}


def recursive(inp):
    """directories sent to the other end"""
    w = World(inp)
    try:
        S = inp.mod(M)
        ch = Sink(inp, faulty(inp))
        files, dirs = [], set()
        for i, (parts, n) in enumerate(TREES[inp.p['tree']]):
            for k in range(1, len(parts)):
                dirs.add(tuple(parts[:k]))
            if parts[-1] is None:
                w.mkdir(w.p('cwd', 't', *parts[:-1]))
                continue
            b = content(inp, f'c{i}', n)
            w.write(w.p('cwd', 't', *parts), b)
            files.append((parts, b))
        base = w.p('cwd', 't', 'd') if inp.p['how'] == 'abs' else 't/d' if inp.p['how'] == 'rel' else w.p('cwd', 't', 'd') + '/'
        args = [base]
        if inp.p.get('extra'):
            b = content(inp, 'e', 1)
            w.write(w.p('cwd', 'o', 'e'), b)
            args = [w.p('cwd', 'o', 'e')] + args
            files.append((['e'], b))
        c = inp.call('ctor', S.SCPClient, Transport(ch))
        keep = inp.flag('keep')
        r, e = inp.raises(c.put, args, 'x', recursive=True, **(dict(preserve_times=True) if keep else {}))
        quoted(inp, ch, ['scp', '-r', '-t', 'x'])
        if ch.failed:
            inp.reach('refused')
            inp.check(isinstance(e, S.SCPException), lambda: f'failure {ch.fault}: {r} {e!r}')
            return
        inp.check(e is None, lambda: f'{e!r}')
        inp.reach('put')
        inp.check(ch.closed and ch.need is None and not ch.stack, lambda: f'left inside {ch.stack}')
        got = {tuple(p): b for p, b, m, t in ch.files}
        inp.check(len(ch.files) == len(files) and sorted(got) == sorted(tuple(p) for p, b in files), lambda: f'files {sorted(got)}')
        inp.check(inp.all([got[tuple(p)] == b for p, b in files]), 'content')
        inp.check(sorted(tuple(p) for p, m, t in set_(ch.dirs)) == sorted(dirs), lambda: f'directories {ch.dirs}')
        inp.check(all((t is not None) == bool(keep) for *x, t in ch.files + ch.dirs), 'times')
    finally:
        w.done()


def set_(dirs):
    seen, out = set(), []
    for p, m, t in dirs:
        if tuple(p) not in seen:
            seen.add(tuple(p))
            out.append((p, m, t))
    return out


class Source(Channel):
    """remote end of get: an scp that sends what the script says"""

    def __init__(self, inp, script, cap):
        super().__init__(inp)
        self.script, self.cap = list(script), cap
        self.refused = []

    def started(self):
        pass

    def on_data(self, data):
        if data[0:1] == '\x00':
            self.next()
        else:
            self.refused.append(data)

    def next(self):
        if not self.script:
            self.closed = True
            self.answers.append(b'')
            return
        a = self.script.pop(0)
        for x in (a if isinstance(a, list) else [a]):
            self.answers.append(x)

    def recv(self, n):
        if not self.answers and not self.script:
            return b''
        return super().recv(min(n, self.cap) if self.inside else n)

    @property
    def inside(self):
        return bool(self.answers) and isinstance(self.answers[0], Body)


class Body:
    """bytes of a file: read a few at a time"""

    def __init__(self, b):
        self.b = b

    def __len__(self):
        return len(self.b)

    def __getitem__(self, s):
        return Body(self.b[s])


def body(b):
    return Body(b)


def recv(self, n):
    if not self.answers:
        if not self.script:
            return b''
        raise socket.timeout('nothing to read')
    a = self.answers[0]
    if isinstance(a, Body):
        n = min(n, self.cap)
        if len(a) > n:
            self.answers[0] = a[n:]
            return a[:n].b
        self.answers.pop(0)
        return a.b
    return Channel.recv(self, n)


Source.recv = lambda self, n: (self.step(), recv(self, n))[1]


def enc(inp, s):
    return s.encode('latin-1')


def sent(inp, name, mode, data, times=None):
    """messages of one file"""
    out = []
    if times:
        out.append((b'T' + inp.str(times[0]).encode('latin-1') + b' 0 ' + inp.str(times[1]).encode('latin-1') + b' 0\n'))
    out.append(('C%04o %d ' % (mode, len(data))).encode('ascii') + enc(inp, name) + b'\n')
    out.append(([Body(enc(inp, data))] if len(data) else []) + [b'\x00'])
    return out


def get(inp):
    """a file or several received"""
    w = World(inp)
    try:
        S = inp.mod(M)
        n = inp.p['n']
        names = [inp.string(f'f{i}', 1, 1, "a b") for i in range(n)]
        for i in range(n):
            for j in range(i):
                inp.assume(inp.no(names[i] == names[j]))
        bodies = [content(inp, f'c{i}', inp.p['sizes'][i]) for i in range(n)]
        keep = inp.flag('keep')
        T = [(inp.int(f'mt{i}', 1, 9), inp.int(f'at{i}', 1, 9)) for i in range(n)]
        script = []
        for i in range(n):
            script += sent(inp, names[i], 0o640, bodies[i], T[i] if keep else None)
        ch = Source(inp, script, inp.p['cap'])
        where = inp.choice('where', ['dir', 'new', 'old'] if n == 1 else ['dir', 'none', 'file'])
        local = w.p('cwd', 'here')
        kept = [(['other'], 'k')]
        w.write(w.p('cwd', 'other'), 'k')
        if where == 'dir':
            w.write(local + '/keep', 'kk')
            kept.append((['here', 'keep'], 'kk'))
        elif where in ('old', 'file'):
            w.write(local, 'old text that is long')
            if where == 'file':
                kept.append((['here'], 'old text that is long'))
        c = inp.call('ctor', S.SCPClient, Transport(ch), buff_size=inp.p['buff'])
        rn = [inp.string(f'rn{i}', 1, 1, "a '") for i in range(n)]
        r, e = inp.raises(c.get, rn[0] if n == 1 else rn, local, **(dict(preserve_times=True) if keep else {}))
        if where in ('none', 'file'):
            inp.reach('nowhere')
            inp.check(isinstance(e, S.SCPException) and ch.command is None, lambda: f'{r} {e!r}')
            w.expect(w.p('cwd'), kept, 'local')
            return
        inp.check(e is None, lambda: f'{e!r}')
        inp.reach('got')
        quoted(inp, ch, ['scp'] + (['-p'] if keep else []) + ['-f'] + rn)
        ps = [(['here'] if where != 'dir' else ['here', x]) for x in names]
        stats = [stat(w, w.p('cwd', *p)) for p in ps]
        w.expect(w.p('cwd'), kept + list(zip(ps, bodies)), 'local')
        for st, (mt, at) in zip(stats, T):
            inp.check(st.st_mode & 0o777 == 0o640, lambda: f'mode {st.st_mode:o}')
            if keep:
                inp.check(inp.all([st.st_mtime == mt, st.st_atime == at]), lambda: f'times {st.st_mtime} {st.st_atime} expected {mt} {at}')
    finally:
        w.done()


def stat(w, p):
    try:
        return w.fs.stat(p) if w.fs else os.stat(p)
    except OSError:
        w.inp.fail('nothing received')


def tree(inp):
    """a directory received"""
    w = World(inp)
    try:
        S = inp.mod(M)
        b = [content(inp, f'c{i}', 1) for i in range(3)]
        rn = inp.choice('rn', ['d', 'd/'])
        script = [b'D0755 0 d\n'] + sent(inp, 'x', 0o644, b[0]) + [b'D0700 0 e\n'] + sent(inp, 'y', 0o644, b[1]) + [b'E\n'] + sent(inp, 'z', 0o600, b[2]) + [b'E\n']
        keep = inp.flag('keep')
        mt, at = inp.int('mt', 1, 9), inp.int('at', 1, 9)
        if keep:
            script = [b'T' + inp.str(mt).encode('latin-1') + b' 0 ' + inp.str(at).encode('latin-1') + b' 0\n'] + script
        ch = Source(inp, script, 2)
        where = inp.choice('where', ['dir', 'new'])
        local = w.p('cwd', 'here')
        if where == 'dir':
            w.mkdir(local)
        c = inp.call('ctor', S.SCPClient, Transport(ch))
        r, e = inp.raises(c.get, 'd', local, recursive=True, **(dict(preserve_times=True) if keep else {}))
        inp.check(e is None, lambda: f'{e!r}')
        inp.reach('tree')
        quoted(inp, ch, ['scp', '-r'] + (['-p'] if keep else []) + ['-f', 'd'])
        top = ['here', 'd'] if where == 'dir' else ['here']
        st = stat(w, w.p('cwd', *top))
        w.expect(w.p('cwd'), [(top + ['x'], b[0]), (top + ['e', 'y'], b[1]), (top + ['z'], b[2])], 'local')
        if keep:
            inp.check(inp.all([st.st_mtime == mt, st.st_atime == at]), lambda: f'times {st.st_mtime} {st.st_atime} expected {mt} {at}')
    finally:
        w.done()


def broken(inp):
    """the other end fails or says what it must not"""
    w = World(inp)
    try:
        S = inp.mod(M)
        how = inp.p['how']
        data = content(inp, 'c', 3)
        first = b'C0644 3 f\n'
        cut = inp.choice('cut', range(3))
        part = [Body(enc(inp, data[:cut]))] if cut else []
        bad = inp.choice('bad', ['../f', '/S/f', '..', '.', 'd/f', ''])
        script = {
            'gone': [first, part], 'timeout': [first, part + [socket.timeout('slow')]],
            'gonelater': [first, part + [b'']],
            'error': [b'\x01scp: no such file\n'], 'fatal': [b'\x02scp: bad\n'], 'late': [first, [Body(enc(inp, data)), b'\x01scp: read error\n']],
            'short': [b'C0644 3\n'], 'mode': [b'C08x4 3 f\n'], 'size': [b'C0644 x f\n'], 'time': [b'T1 0 x 0\n'], 'dirmode': [b'D9 0 d\n'],
            'unknown': [b'Q1 2 3\n'],
            'name': [b'C0644 3 ' + bad.encode() + b'\n', [Body(enc(inp, data)), b'\x00']],
            'dirname': [b'D0755 0 ' + bad.encode() + b'\n', b'C0644 3 f\n', [Body(enc(inp, data)), b'\x00'], b'E\n'],
        }[how]
        ch = Source(inp, script, 2)
        if how in ('gone', 'gonelater'):
            ch.script.append([b''])
        local = w.p('cwd', 'here')
        w.mkdir(local)
        w.write(w.p('cwd', 'other'), 'k')
        c = inp.call('ctor', S.SCPClient, Transport(ch), buff_size=inp.choice('buff', [1, 2, 5]))
        try:
            r, e = inp.raises(c.get, 'd', local, recursive=True)
        except Hang:
            r, e = None, 'hangs'
        inp.reach('broken')
        inp.check(isinstance(e, S.SCPException), lambda: f'{how} {bad!r}: {r} {e!r}')
        out = [p for p, x in w.files(w.base) if p[:2] != ['cwd', 'here']]
        inp.check(len(out) == 1 and out[0] == ['cwd', 'other'], lambda: f'{how} {bad!r}: written outside: {[show(p) for p in out]}')
    finally:
        w.done()


PUT = [dict(sizes=s, buff=b, faults=f) for s, b, f in (([0], 3, 4), ([3], 2, 4), ([2], 5, 4), ([2, 1], 1, 6))] + \
      [dict(sizes=[3, 0], buff=2, faults=0, progress=1), dict(sizes=[1], buff=1, faults=0, name=2)]
REC = [dict(tree=t, how='abs', faults=0) for t in TREES] + [dict(tree='side', how='rel', faults=0), dict(tree='deep', how='slash', faults=0), dict(tree='deep', how='abs', faults=12), dict(tree='flat', how='abs', faults=0, extra=1)]
GET = [dict(n=1, sizes=[s], cap=c, buff=b) for s, c, b in ((0, 1, 1), (3, 1, 2), (3, 3, 2), (2, 5, 5))] + [dict(n=2, sizes=[1, 2], cap=2, buff=2)]
HOW = ['gone', 'gonelater', 'timeout', 'error', 'fatal', 'late', 'short', 'mode', 'size', 'time', 'dirmode', 'unknown', 'name', 'dirname']
HARNESSES = [
    H(put, quick=PUT, bounds='up to two files of up to three bytes, every failure of every confirmation', reach=['put']),
    H(changing, quick=[dict(told=t, real=r) for t, r in ((3, 1), (2, 0), (1, 3), (2, 4), (3, 4))], bounds='files cut or grown', reach=['changing']),
    H(recursive, quick=REC, bounds='five directory trees, every failure', reach=['put']),
    H(get, quick=GET, bounds='up to two files of up to three bytes', reach=['got']),
    H(tree, bounds='one directory tree', reach=['tree']),
    H(broken, quick=[dict(how=h) for h in HOW], bounds='every point of failure of one file', reach=['broken']),
]
ASSUMPTIONS = ['the other end is a model of scp that answers every message at once', 'messages other than file data arrive whole']
