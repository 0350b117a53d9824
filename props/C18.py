"""Sending by FTP: what is on the server afterwards."""
import ftplib

from sx.harness import H
from sx.fakefs import World, FS, show
from props.C17 import build, spell


class Server:
    """one FTP server: a tree, and a failure at the k-th request that changes it"""

    def __init__(self, inp, k=None):
        self.inp, self.fs, self.k, self.n = inp, FS('/'), k, 0
        self.logins, self.hosts, self.open = [], [], 0

    def tick(self, what):
        self.n += 1
        if self.k is not None and bool(self.k == self.n - 1):
            raise ftplib.error_perm('550 ' + what + ' refused')


def fake(inp, srv):
    class FTP:
        def __init__(self, host='', user='', passwd='', *a, **k):
            srv.hosts.append(host)
            srv.open += 1
            self.at = '/'
            if user:
                self.login(user, passwd)

        def login(self, user='', passwd='', acct=''):
            srv.logins.append((user, passwd))

        def _abs(self, p):
            return p if p[:1] == '/' else self.at + '/' + p

        def cwd(self, d):
            if d == '':
                d = '.'
            p = self._abs(d)
            if not srv.fs.isdir(p):
                raise ftplib.error_perm('550 Failed to change directory.')
            out = ''
            for c in srv.fs.parts(p):
                out = out + '/' + c
            self.at = out or '/'
            return '250'

        def pwd(self):
            return self.at

        def mkd(self, d):
            srv.tick('mkdir')
            try:
                srv.fs.mkdir(self._abs(d))
            except OSError as e:
                raise ftplib.error_perm('550 Create directory operation failed.')
            return d

        def nlst(self, *a):
            return srv.fs.listdir(self._abs(a[0]) if a else self.at)

        def storbinary(self, cmd, fp, blocksize=8192, callback=None, rest=None):
            assert cmd[:5] == 'STOR ', 'command'
            p = self._abs(cmd[5:])
            data = srv.fs.text(fp.read())
            try:
                f = srv.fs.open(p, 'wb')
            except OSError:
                raise ftplib.error_perm('553 Could not create file.')
            try:
                srv.tick('store')
            except ftplib.error_perm:
                f.node.content = data[:len(data) // 2]
                raise
            f.node.content = data
            return '226'

        def rename(self, a, b):
            srv.tick('rename')
            try:
                srv.fs.rename(self._abs(a), self._abs(b))
            except OSError:
                raise ftplib.error_perm('550 RNTO failed')

        def delete(self, p):
            srv.tick('delete')
            try:
                srv.fs.remove(self._abs(p))
            except OSError:
                raise ftplib.error_perm('550')

        def size(self, p):
            return srv.fs.getsize(self._abs(p))

        def quit(self):
            srv.open -= 1
            return '221'

        def close(self):
            srv.open -= 1
    return FTP


def on_server(inp, srv, want, what):
    w = World.__new__(World)
    w.inp, w.fs = inp, srv.fs
    w.expect('/', want, what)


REMOTE = {'abs': '/pub/in', 'rel': 'pub/in', 'slash': '/pub/in/', 'root': '/', 'one': '/pub'}


def send(inp):
    srv = Server(inp)
    inp.stub(ftplib, 'FTP', fake(inp, srv))
    M = inp.mod('impactutils.transfer.ftpsender')
    w = World(inp)
    try:
        ld, files, (f3, c3) = build(inp, w)
        usedir, usefile = inp.p['dir'], inp.p['file']
        rd = REMOTE[inp.p['remote']]
        rp = [c for c in rd.split('/') if c]
        state = inp.choice('state', ['none', 'part', 'full'])
        kept = []
        if state != 'none':
            srv.fs.mkdirs('/' + '/'.join(rp[:1] if state == 'part' else rp))
        if state == 'full':
            srv.fs.open(rd + '/keep', 'w').write('k')
            kept = [(rp + ['keep'], 'k')]
        kw, props = {}, {'remote_host': 'host', 'remote_directory': rd}
        user = inp.choice('user', [None, 'me'])
        if user:
            props.update(user=user, password='secret')
        if usedir:
            kw['local_directory'] = spell(inp, w, ld, inp.p['form'])
        if usefile:
            kw['local_files'] = [spell(inp, w, 'o', 'rel') + '/' + f3]
        s = inp.call('ctor', M.FTPSender, properties=props, cancelfile='CANCEL', **kw)
        r = inp.call('send', s.send)
        inp.reach('sent')
        want = [(rp + p, c) for p, c in files] if usedir else []
        if usefile:
            want.append((rp + [f3], c3))
        inp.check(r[0] == len(want), lambda: f'reported {r[0]} files sent, {len(want)} were given')
        on_server(inp, srv, want + kept, 'server')
        inp.check(srv.hosts == ['host'] and srv.logins == [(user, 'secret') if user else ('', '')],
                  lambda: f'connected to {srv.hosts} as {srv.logins}')
        text = inp.choice('text', [None, 'gone'])
        inp.call('cancel', s.cancel, *([text] if text is not None else []))
        on_server(inp, srv, want + kept + [(rp + ['CANCEL'], text or '')], 'after cancel')
    finally:
        w.done()


def faults(inp):
    """a refused request is reported, never counted as sent, and leaves only whole files"""
    k = inp.int('k', 0, 8)
    srv = Server(inp, k)
    inp.stub(ftplib, 'FTP', fake(inp, srv))
    M = inp.mod('impactutils.transfer.ftpsender')
    w = World(inp)
    try:
        ld, files, (f3, c3) = build(inp, w)
        rd = '/pub'
        srv.fs.mkdirs(rd)
        s = inp.call('ctor', M.FTPSender, properties={'remote_host': 'host', 'remote_directory': rd},
                     local_directory=ld, local_files=['o/' + f3])
        r, e = inp.raises(s.send)
        hit = bool(k < srv.n)
        inp.reach('failed' if hit else 'fine')
        if hit:
            inp.check(e is not None and not isinstance(e, NameError), lambda: f'request {k} refused: send returned {r!r}, raised {e!r}')
        else:
            inp.check(e is None, lambda: f'nothing refused: {e!r}')
        for gp, gc in [(n.parts, n.content) for n in srv.fs.nodes if n.kind == 'f']:
            for parts, c in files + [([f3], c3)]:
                if len(gp) == len(parts) + 1 and inp.all([a == b for a, b in zip(gp[1:], parts)]):
                    inp.check(gc == c, lambda: f'{show(parts)} on the server holds {gc!r}')
    finally:
        w.done()


HARNESSES = [
    H(send, quick=[dict(dir=1, file=1, form='rel', remote=r) for r in REMOTE] + [dict(dir=1, file=0, form='slash', remote='abs'),
                   dict(dir=0, file=1, form='rel', remote='rel')],
      thorough=[dict(dir=1, file=1, form=f, remote=r, nl=n) for r in REMOTE for f in ('rel', 'abs', 'slash', 'relslash') for n in (1, 2)] +
      [dict(dir=0, file=1, form='rel', remote=r) for r in REMOTE],
      bounds='a directory with a file and a sub-directory, one more file; names of 1 (2) characters; five spellings of the '
             'remote directory, absent, partly present or present', reach=['sent'], max_paths=20000),
    H(faults, bounds='each of the first 9 requests that change the server refused', reach=['failed', 'fine'], max_paths=5000),
]
ASSUMPTIONS = ['the FTP server is a model (directory tree; 550 on missing directories) in symbolic runs and replays alike',
               'local files are modelled in symbolic runs and real in replays']
