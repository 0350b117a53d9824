"""Sending over ssh: what is on the remote machine afterwards."""
from sx.harness import H
from sx.fakefs import World, show
from sx import fakessh
from props.C17 import content

AL = "a ;'$"


def nm(inp, n):
    return inp.string(n, 1, 1, inp.p.get('al', 'a '))


def setup(inp, w, srv):
    import paramiko
    import importlib
    importlib.import_module('impactutils')
    S = importlib.import_module('impactutils.extern.scp.scp')
    inp.stub(paramiko, 'SSHClient', fakessh.client(srv))

    def local(p):
        if w.fs:
            return w.fs.open(p).read()
        with open(p) as f:
            return f.read()
    inp.stub(S, 'SCPClient', fakessh.scp(srv, local))
    return inp.mod('impactutils.transfer.securesender')


def tree(inp, w):
    ld, sub, f1, f2, f3 = nm(inp, 'ld'), nm(inp, 'sub'), nm(inp, 'f1'), nm(inp, 'f2'), nm(inp, 'f3') + '3'
    inp.assume(inp.no(f1 == sub))
    files = [([f1], content(inp, 'c1')), ([sub, f2], content(inp, 'c2'))]
    for parts, c in files:
        w.write(w.p('cwd', ld, *parts), c)
    w.write(w.p('cwd', 'o', f3), '3')
    return ld, files, (f3, '3')


def on_server(inp, srv, want, what):
    w = World.__new__(World)
    w.inp, w.fs = inp, srv.fs
    w.expect('/', want, what)


PROPS = {'private_key': 'key', 'remote_host': 'host'}


def send(inp):
    w = World(inp)
    srv = fakessh.Server(inp, lazy=inp.flag('lazy'))
    try:
        M = setup(inp, w, srv)
        usedir, usefile = inp.p['dir'], inp.p['file']
        rn = nm(inp, 'rn')
        if usedir:
            ld, files, (f3, c3) = tree(inp, w)
        else:
            ld, files, (f3, c3) = None, [], (nm(inp, 'f3'), '3')
            w.write(w.p('cwd', 'o', f3), '3')
        rp = {'abs': ['data', rn], 'rel': ['home', 'me', rn], 'slash': ['data', rn]}[inp.p['remote']]
        rd = {'abs': '/data/' + rn, 'rel': rn, 'slash': '/data/' + rn + '/'}[inp.p['remote']]
        kept = [(['data', 'other'], 'k')]
        srv.fs.mkdirs('/data')
        srv.fs.open('/data/other', 'w').write('k')
        state = inp.choice('state', ['none', 'dir', 'file'])
        here = '/' + '/'.join(rp[:-1]) + '/' + rn
        if state == 'dir':
            srv.fs.mkdirs(here)
            srv.fs.open(here + '/keep', 'w').write('k')
            kept.append((rp + ['keep'], 'k'))
        elif state == 'file' and inp.p['remote'] != 'slash':
            srv.fs.open(here, 'w').write('in the way')
        kw = {}
        if usedir:
            kw['local_directory'] = ld if inp.p['dir'] == 'rel' else w.p('cwd', ld)
        if usefile:
            kw['local_files'] = ['o/' + f3]
        props = dict(PROPS, remote_directory=rd)
        user = inp.choice('user', [None, 'you'])
        if user:
            props['remote_user'] = user
        s = inp.call('ctor', M.SecureSender, properties=props, cancelfile='CANCEL', **kw)
        r = inp.call('send', s.send)
        inp.reach('sent')
        want = [(rp + p, c) for p, c in files]
        if usefile:
            want.append((rp + [f3], c3))
        inp.check(r[0] == len(want), lambda: f'reported {r[0]} files sent, {len(want)} were given')
        on_server(inp, srv, want + kept, 'server')
        host, args = srv.connected[0]
        inp.check(host == 'host' and args.get('key_filename') == 'key' and (user is None or args.get('username') == user),
                  lambda: f'connected to {host} with {args}')
    finally:
        w.done()


def cancel(inp):
    w = World(inp)
    srv = fakessh.Server(inp, lazy=inp.flag('lazy'))
    try:
        M = setup(inp, w, srv)
        rn = nm(inp, 'rn')
        exists = inp.flag('exists')
        kept = [(['data', 'other'], 'k')]
        srv.fs.mkdirs('/data')
        srv.fs.open('/data/other', 'w').write('k')
        if exists:
            srv.fs.mkdirs('/data/' + rn)
        s = inp.call('ctor', M.SecureSender, properties=dict(PROPS, remote_directory='/data/' + rn), cancelfile='CANCEL')
        text = None if inp.flag('notext') else inp.string('text', 0, inp.p['n'], inp.p.get('al', 'a '))
        r, e = inp.raises(s.cancel, *([text] if text is not None else []))
        inp.reach('cancelled' if e is None else 'refused')
        if not exists:
            inp.check(e is not None, 'cancel in a missing directory reported success')
            on_server(inp, srv, kept, 'server')
            return
        inp.check(e is None, lambda: f'cancel: {e!r}')
        got = [n.content for n in srv.fs.nodes if n.kind == 'f' and srv.fs.eq(n.parts, ['data', rn, 'CANCEL'])]
        inp.check(len(got) == 1 and len(srv.fs.nodes) == 6, lambda: f'files {[show(n.parts) for n in srv.fs.nodes]}')
        t = text or ''
        inp.check(inp.any([got[0] == t, got[0] == t + '\n']), lambda: f'cancel file holds {got[0]!r}, text {text!r}')
    finally:
        w.done()


def faults(inp):
    """a refused request is reported, never counted as sent, and leaves only whole files"""
    w = World(inp)
    k = inp.int('k', 0, 9)
    srv = fakessh.Server(inp, k=k)
    try:
        M = setup(inp, w, srv)
        ld, files, (f3, c3) = tree(inp, w)
        s = inp.call('ctor', M.SecureSender, properties=dict(PROPS, remote_directory='/data'), local_directory=ld,
                     local_files=['o/' + f3])
        r, e = inp.raises(s.send)
        inp.reach('failed' if srv.hit else 'fine')
        if srv.hit:
            inp.check(e is not None and not isinstance(e, NameError), lambda: f'request {k} refused: send returned {r!r}, raised {e!r}')
        else:
            inp.check(e is None, lambda: f'nothing refused: {e!r}')
        for n in srv.fs.nodes:
            for parts, c in files + [([f3], c3)]:
                if n.kind == 'f' and len(n.parts) == len(parts) + 1 and inp.all([a == b for a, b in zip(n.parts[1:], parts)]):
                    inp.check(n.content == c, lambda: f'{show(parts)} on the server holds {n.content!r}')
    finally:
        w.done()


HARNESSES = [
    H(send, quick=[dict(dir='rel', file=1, remote=r) for r in ('abs', 'rel', 'slash')] +
      [dict(dir='abs', file=0, remote='abs'), dict(dir=0, file=1, remote='abs', al=AL), dict(dir=0, file=1, remote='rel', al=AL)],
      thorough=[dict(dir=d, file=f, remote=r, al=a) for d in ('rel', 'abs') for f in (0, 1) for r in ('abs', 'rel', 'slash')
                for a in ('a ', "b'", 'a;', 'c$')] + [dict(dir=0, file=1, remote=r, al=AL) for r in ('abs', 'rel', 'slash')],
      bounds='a directory with a file and a sub-directory, one more file; one-character names including blank, semicolon, '
             'quote and dollar; remote directory absent, present or a file; commands nobody waits for run at once or never',
      reach=['sent'], max_paths=20000),
    H(cancel, quick=[dict(n=1, al=AL), dict(n=2, al='a ;')], bounds='cancel texts of up to 2 characters', reach=['cancelled', 'refused']),
    H(faults, bounds='each of the first 10 requests that change the remote machine refused', reach=['failed', 'fine'], max_paths=5000),
]
ASSUMPTIONS = ['the ssh server is a model (directory tree, POSIX shell subset, copy by scp) in symbolic runs and replays alike',
               'local files are modelled in symbolic runs and real in replays']
