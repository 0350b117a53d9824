"""A model of an ssh server: a directory tree and a small POSIX shell."""
import os

from .fakefs import FS


class Unsupported(BaseException):
    """outside the modelled shell"""


def words(cmd):
    """tokens of a command line: ('w', text) or ('op', text)"""
    out = []
    cur = None
    i, n = 0, len(cmd)

    def ch(j):
        return cmd[j]
    while i < n:
        c = ch(i)
        if c == "'":
            cur = '' if cur is None else cur
            i += 1
            while True:
                if i >= n:
                    raise SyntaxError('unterminated quote')
                if ch(i) == "'":
                    break
                cur = cur + ch(i)
                i += 1
            i += 1
        elif c == '"':
            cur = '' if cur is None else cur
            i += 1
            while True:
                if i >= n:
                    raise SyntaxError('unterminated quote')
                d = ch(i)
                if d == '"':
                    break
                if d == '\\' and i + 1 < n and in_(ch(i + 1), '"\\$`'):
                    cur = cur + ch(i + 1)
                    i += 2
                    continue
                if d == '$':
                    m = expand(cmd, i)
                    if m:
                        cur = cur + ('\0?' if m == '?' else '')
                        i += 1 + len(m)
                        continue
                if d == '`':
                    raise SyntaxError('substitution')
                cur = cur + d
                i += 1
            i += 1
        elif c == '\\':
            if i + 1 >= n:
                raise SyntaxError('backslash')
            cur = ('' if cur is None else cur) + ch(i + 1)
            i += 2
        elif in_(c, ' \t\n'):
            if cur is not None:
                out.append(('w', cur))
                cur = None
            if c == '\n':
                out.append(('op', ';'))
            i += 1
        elif in_(c, ';&|<>()'):
            if cur is not None:
                out.append(('w', cur))
                cur = None
            op = [x for x in ';&|<>()' if c == x][0]
            i += 1
            if i < n and op in '&|>' and ch(i) == op:
                op += op
                i += 1
            out.append(('op', op))
        elif c == '$':
            m = expand(cmd, i)
            if m:
                cur = ('' if cur is None else cur) + ('\0?' if m == '?' else '')
                i += 1 + len(m)
            else:
                cur = ('' if cur is None else cur) + '$'
                i += 1
        elif in_(c, '*?[#~`') and not (c == '[' and cur is None) and not (in_(c, '#~') and cur is not None):
            raise SyntaxError('special character')
        else:
            cur = ('' if cur is None else cur) + c
            i += 1
    if cur is not None:
        out.append(('w', cur))
    return out


def in_(c, chars):
    if isinstance(c, str):
        return c in chars
    from . import calls
    return calls.contains(c, chars)


def expand(cmd, i):
    """name of the variable at cmd[i] == '$' ('' if none); unset variables are empty"""
    j = i + 1
    if j < len(cmd) and cmd[j] == '?':
        return '?'
    if j < len(cmd) and cmd[j] == '(':
        raise SyntaxError('substitution')
    m = ''
    while j < len(cmd) and in_(cmd[j], 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'):
        m = m + 'x'
        j += 1
    return m


class Shell:
    """runs one command line on a tree"""

    def __init__(self, srv):
        self.srv, self.fs = srv, srv.fs

    def run(self, cmd):
        self.status, self.out, self.err = 0, '', ''
        try:
            toks = words(cmd)
        except SyntaxError as e:
            return 2, '', 'sh: syntax error'
        cmds, cur = [], []
        sep = ';'
        for t in toks + [('op', ';')]:
            if t[0] == 'op' and t[1] in (';', '&&', '||', '&'):
                if cur:
                    cmds.append((sep, cur))
                cur, sep = [], t[1] if t[1] != '&' else ';'
            elif t[0] == 'op' and t[1] not in ('>', '>>'):
                return 2, '', 'sh: syntax error'
            else:
                cur.append(t)
        for sep, c in cmds:
            if sep == '&&' and self.status or sep == '||' and not self.status:
                continue
            self.status = self.one(c)
        return self.status, self.out, self.err

    def one(self, toks):
        argv, redir = [], None
        it = iter(toks)
        for k, w in it:
            if k == 'op':
                nxt = next(it, None)
                if nxt is None or nxt[0] != 'w':
                    self.err += 'syntax error'
                    return 2
                redir = (w, nxt[1])
            else:
                if not isinstance(w, str) or '\0?' in w:
                    w = w.replace('\0?', str(self.status)) if isinstance(w, str) else w
                argv.append(w)
        out = []
        st = 0
        if argv:
            st = self.cmd(argv, out)
        text = ''
        for o in out:
            text = text + o
        if redir:
            p = self.srv.abs(redir[1])
            try:
                self.srv.change()
                f = self.fs.open(p, 'a' if redir[0] == '>>' else 'w')
                f.write(text)
            except OSError:
                self.err += 'sh: cannot create file'
                return 1
        else:
            self.out = self.out + text
        return st

    def cmd(self, argv, out):
        a, args = argv[0], argv[1:]
        if not isinstance(a, str):
            for name in ('[', 'test', 'echo', 'mkdir', 'mv', 'rm', 'cat', 'printf', 'touch', 'true', 'cp'):
                if a == name:
                    a = name
                    break
            else:
                self.err += 'not found'
                return 127
        fs, A = self.fs, self.srv.abs
        opts, rest = [], []
        if a in ('mkdir', 'mv', 'rm', 'cp', 'touch', 'cat'):
            end = False
            for x in args:
                if not end and x == '--':
                    end = True
                elif not end and x[:1] == '-' and len(x) > 1:
                    opts.append(x)
                else:
                    rest.append(x)
        try:
            if a in ('[', 'test'):
                if a == '[':
                    if not args or not args[-1] == ']':
                        self.err += '[: missing ]'
                        return 2
                    args = args[:-1]
                if len(args) != 2 or not isinstance(args[0], str) or args[0] not in ('-e', '-d', '-f'):
                    if len(args) == 1:
                        return 0 if len(args[0]) else 1
                    if len(args) == 0:
                        return 1
                    self.err += '[: unexpected operator'
                    return 2
                f = {'-e': fs.exists, '-d': fs.isdir, '-f': fs.isfile}[args[0]]
                return 0 if f(A(args[1])) else 1
            if a in ('echo', 'printf'):
                if a == 'printf':
                    if len(args) == 2 and isinstance(args[0], str) and args[0] in ('%s', '%s\n', '%s\\n'):
                        out.append(args[1])
                        if len(args[0]) > 2:
                            out.append('\n')
                        return 0
                    raise Unsupported('printf')
                nl = True
                if args and args[0] == '-n':
                    nl, args = False, args[1:]
                for i, x in enumerate(args):
                    if i:
                        out.append(' ')
                    out.append(x)
                if nl:
                    out.append('\n')
                return 0
            if a == 'true':
                return 0
            if not rest:
                self.err += a + ': missing operand'
                return 1
            if a == 'mkdir':
                st = 0
                for x in rest:
                    self.srv.change()
                    try:
                        if '-p' in opts:
                            fs.makedirs(A(x), exist_ok=True)
                        else:
                            fs.mkdir(A(x))
                    except OSError:
                        self.err += 'mkdir: cannot create directory'
                        st = 1
                return st
            if a in ('mv', 'cp'):
                if len(rest) < 2:
                    self.err += a + ': missing destination'
                    return 1
                dst = A(rest[-1])
                if len(rest) > 2 and not fs.isdir(dst):
                    self.err += 'target is not a directory'
                    return 1
                st = 0
                for x in rest[:-1]:
                    self.srv.change()
                    d = dst
                    try:
                        if fs.isdir(dst):
                            d = dst + '/' + fs.parts(A(x))[-1]
                        (fs.rename if a == 'mv' else fs.copyfile)(A(x), d)
                    except OSError:
                        self.err += a + ': cannot move'
                        st = 1
                return st
            if a == 'rm':
                st = 0
                for x in rest:
                    self.srv.change()
                    try:
                        if any(o in ('-r', '-rf', '-fr', '-R') for o in opts):
                            fs.rmtree(A(x))
                        else:
                            fs.remove(A(x))
                    except OSError:
                        self.err += 'rm: cannot remove'
                        st = 0 if '-f' in opts else 1
                return st
            if a == 'touch':
                for x in rest:
                    self.srv.change()
                    fs.open(A(x), 'a')
                return 0
            if a == 'cat':
                for x in rest:
                    out.append(fs.open(A(x)).read())
                return 0
        except OSError as e:
            self.err += f'{a}: failed'
            return 1
        self.err += 'not found'
        return 127


class Server:
    """state of the remote machine; lazy: a command nobody waits for has not run"""

    def __init__(self, inp, lazy=False, k=None):
        self.inp = inp
        self.fs = FS('/home/me')
        self.lazy, self.k, self.n = lazy, k, 0
        self.hit = False
        self.connected, self.closed = [], 0

    def abs(self, p):
        return p if p[:1] == '/' else '/home/me/' + p

    def change(self):
        """a request that changes the tree; the k-th one fails"""
        self.n += 1
        if self.k is not None and bool(self.k == self.n - 1):
            self.hit = True
            raise OSError('refused')


class Stream:
    def __init__(self, run, which):
        self.run, self.which = run, which
        self.channel = run

    def read(self, *a):
        self.run.wait()
        t = self.run.res[self.which]
        return t.encode('utf-8')

    def readlines(self):
        self.run.wait()
        t = self.run.res[self.which]
        return t.splitlines(True)

    def close(self):
        pass

    def write(self, *a):
        pass

    def flush(self):
        pass


class Run:
    def __init__(self, srv, cmd):
        self.srv, self.cmd, self.res = srv, cmd, None
        if not srv.lazy:
            self.wait()

    def wait(self):
        if self.res is None:
            if self.srv.closed:
                self.res = (-1, '', '')
            else:
                self.res = Shell(self.srv).run(self.cmd)

    def recv_exit_status(self):
        self.wait()
        return self.res[0]

    exit_status_ready = recv_exit_status


def client(srv):
    class SSHClient:
        def __init__(self):
            pass

        def load_system_host_keys(self, *a):
            pass

        def load_host_keys(self, *a):
            pass

        def set_missing_host_key_policy(self, *a):
            pass

        def connect(self, hostname, *a, **k):
            srv.connected.append((hostname, k))

        def get_transport(self):
            return self

        def exec_command(self, cmd, *a, **k):
            r = Run(srv, cmd)
            return Stream(r, 1), Stream(r, 1), Stream(r, 2)

        def close(self):
            srv.closed += 1
    return SSHClient


def scp(srv, local):
    """local: function path -> content"""
    class SCPClient:
        def __init__(self, transport, *a, **k):
            pass

        def put(self, files, remote_path='.', recursive=False, preserve_times=False):
            for f in (files if isinstance(files, (list, tuple)) else [files]):
                data = local(f)
                p = srv.abs(remote_path)
                if srv.fs.isdir(p):
                    p = p + '/' + srv.fs.parts(f)[-1]
                h = srv.fs.open(p, 'w')
                try:
                    srv.change()
                except OSError:
                    h.node.content = data[:len(data) // 2]
                    raise
                h.node.content = data

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    return SCPClient
