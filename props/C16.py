"""What a sender accepts and keeps when it is built or changed."""
from sx.harness import H
from sx.fakefs import World

AL = 'ab.'
D = 'ab'


def module(inp, name):
    return inp.mod('impactutils.transfer.' + name)


REQ = {'copysender:CopySender': ['remote_directory'], 'ftpsender:FTPSender': ['remote_directory', 'remote_host'],
       'securesender:SecureSender': ['private_key', 'remote_host', 'remote_directory'],
       'emailsender:EmailSender': ['smtp_servers', 'sender', 'subject', 'recipients', 'message'],
       'pdlsender:PDLSender': ['java', 'jarfile', 'privatekey', 'configfile', 'source', 'type', 'code', 'eventsource',
                               'eventsourcecode'], 'sender:Sender': []}


def cls(inp):
    m, c = inp.p['cls'].split(':')
    return getattr(module(inp, m), c), REQ[inp.p['cls']]


def required(inp):
    C, req = cls(inp)
    X = inp.mod('impactutils.exceptions')
    inp.check(sorted(C(properties={k: 'x' for k in req}).getRequiredProperties()) == sorted(req), 'required properties')
    props = {'other': 'x'}
    missing = []
    for k in req:
        if inp.flag('has_' + k):
            props[k] = 'x'
        else:
            missing.append(k)
    r, e = inp.raises(C, properties=dict(props))
    inp.reach('required')
    if missing:
        inp.check(isinstance(e, X.RequiredArgumentError), lambda: f'without {missing}: {e!r}')
    else:
        inp.check(e is None, lambda: f'complete properties: {e!r}')


def fname(inp, n):
    s = inp.string(n, 1, 2, AL)
    inp.assume(inp.no(s == '.'))
    inp.assume(inp.no(s == '..'))
    return s


def tree(inp, w):
    """cwd: <d>/<f1>, <d>/<s>/<f2>, file <g> at the top"""
    d, f1, s, f2, g = D, fname(inp, 'f1'), 'sub', fname(inp, 'f2'), fname(inp, 'g')
    inp.assume(inp.all([inp.no(f1 == s), inp.no(g == d)]))
    w.write(w.p('cwd', d, f1), '1')
    w.write(w.p('cwd', d, s, f2), '2')
    w.write(w.p('cwd', g), '3')
    w.mkdir(w.p('cwd', d, 'empty'))
    return [(d + '/' + f1), (d + '/' + s + '/' + f2)], g


def inputs(inp):
    """files and directories must exist"""
    C, req = cls(inp)
    w = World(inp)
    try:
        there, g = tree(inp, w)
        props = {k: 'x' for k in req}
        # a name that may or may not be the existing file
        x = fname(inp, 'x')
        exists = bool(x == g)
        isdir = bool(x == D)
        how = inp.choice('how', ['ctor', 'add', 'ctor_second'])
        mine = [g]
        if how == 'ctor':
            s, e = inp.raises(C, properties=props, local_files=[x])
        elif how == 'ctor_second':
            s, e = inp.raises(C, properties=props, local_files=[g, x])
        else:
            s = inp.call('ctor', C, properties=props, local_files=mine)
            r, e = inp.raises(s.addFiles, [x])
        inp.reach('files')
        if exists:
            inp.check(e is None, lambda: f'{how}: existing file refused: {e!r}')
        else:
            inp.check(isinstance(e, FileNotFoundError), lambda: f'{how}: missing file {x!r}: {e!r}')
        if how == 'add':
            inp.check(len(mine) == 1, lambda: f'the caller\'s list of files became {mine}')
        how = inp.choice('dhow', ['ctor', 'change'])
        if how == 'ctor':
            s, e = inp.raises(C, properties=props, local_directory=x)
        else:
            s = inp.call('ctor', C, properties=props, local_directory=D)
            r, e = inp.raises(s.changeDirectory, x)
        inp.reach('dirs')
        if isdir:
            inp.check(e is None, lambda: f'{how}: existing directory refused: {e!r}')
        else:
            inp.check(isinstance(e, FileNotFoundError), lambda: f'{how}: missing directory {x!r}: {e!r}')
        if how == 'change':
            got = inp.call('all files', s.getAllLocalFiles)
            inp.check(len(got) == 2, lambda: f'after changeDirectory: {got}')
        bad = inp.choice('bad', [('a',), 'a', {'a': 1}])
        r, e = inp.raises(C, properties=props, local_files=bad)
        inp.check(isinstance(e, TypeError), lambda: f'local_files={bad!r}: {e!r}')
    finally:
        w.done()


def listing(inp):
    """every file under the directory, with its path, and nothing else"""
    C, req = cls(inp)
    w = World(inp)
    try:
        there, g = tree(inp, w)
        props = {k: 'x' for k in req}
        form = inp.choice('form', [D, './' + D, 'abs'])
        d = w.p('cwd', D) if form == 'abs' else form
        s = inp.call('ctor', C, properties=props, local_files=[g], local_directory=d)
        got = inp.call('getAllLocalFiles', s.getAllLocalFiles)
        inp.reach('listing')
        want = [d + p[len(D):] for p in there]
        inp.check(len(got) == len(want) and inp.all([inp.any([a == b for b in got]) for a in want]),
                  lambda: f'listing {got}, expected {want}')
        s = inp.call('ctor', C, properties=props, local_files=[g])
        got = inp.call('getAllLocalFiles', s.getAllLocalFiles)
        inp.check(got == [], lambda: f'without a directory: {got}')
        k, v = inp.string('k', 1, 1, 'xy'), inp.int('v', 0, 9)
    finally:
        w.done()


def factory(inp):
    F = inp.mod('impactutils.transfer.factory')
    kinds = {'copy': 'CopySender', 'ftp': 'FTPSender', 'pdl': 'PDLSender', 'email': 'EmailSender', 'ssh': 'SecureSender'}
    t = inp.string('t', 1, 5, 'copyftpdlemailsh')
    r, e = inp.raises(F.get_sender_class, t)
    inp.reach('factory')
    for k, n in kinds.items():
        if t == k:
            inp.check(e is None and r.__name__ == n, lambda: f'{t}: {r!r} {e!r}')
            return
    inp.check(isinstance(e, KeyError), lambda: f'{t!r}: {r!r} {e!r}')


ALL = list(REQ)
HARNESSES = [
    H(required, quick=[dict(cls=c) for c in ALL], bounds='every subset of the required properties', reach=['required']),
    H(inputs, quick=[dict(cls=c) for c in ALL], bounds='names of 1..2 characters', reach=['files', 'dirs'], max_paths=4000),
    H(listing, quick=[dict(cls='copysender:CopySender')], bounds='trees of depth 2, names of 1..2 characters', reach=['listing'],
      max_paths=4000),
    H(factory, bounds='every type name of 1..5 letters', reach=['factory']),
]
ASSUMPTIONS = ['the file system is modelled in the symbolic run; witnesses replay on a real scratch directory']
