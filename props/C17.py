"""Sending by copying: the remote directory afterwards."""
import errno
import os
import shutil

from sx.harness import H
from sx.fakefs import World, show
from props.C16 import fname


def content(inp, n):
    return inp.string(n, 0, 1, 'xy') + n


def build(inp, w):
    """local directory <ld> with <f1> and <sub>/<f2>, one more file <o>/<f3>; a remote directory <r>"""
    ld, sub = fname1(inp, 'ld'), fname1(inp, 'sub')
    f1, f2, f3 = fname1(inp, 'f1'), fname1(inp, 'f2'), fname1(inp, 'f3')
    inp.assume(inp.all([inp.no(f1 == sub), inp.no(f1 == f3), inp.no(f3 == sub)]))
    files = [([f1], content(inp, 'c1')), ([sub, f2], content(inp, 'c2'))]
    for parts, c in files:
        w.write(w.p('cwd', ld, *parts), c)
    w.mkdir(w.p('cwd', ld, 'e'))
    c3 = content(inp, 'c3')
    w.write(w.p('cwd', 'o', f3), c3)
    return ld, files, (f3, c3)


def fname1(inp, n):
    s = inp.string(n, 1, inp.p.get('nl', 1), 'ab ')
    return s


def spell(inp, w, name, how):
    return {'rel': name, 'dot': './' + name, 'abs': w.p('cwd', name), 'slash': w.p('cwd', name) + '/',
            'relslash': name + '/'}[how]


def overlay(base, add):
    out = [(p, c) for p, c in base]
    return out + add


def send(inp):
    M = inp.mod('impactutils.transfer.copysender')
    w = World(inp)
    try:
        ld, files, (f3, c3) = build(inp, w)
        usedir, usefile = inp.p['dir'], inp.p['file']
        remote = 'rem'
        sub = inp.choice('deep', [[], ['x']])
        rp = [remote] + sub
        rname = '/'.join(rp)
        exists = inp.flag('exists')
        old, kept, cancel = [], [], 'CANCEL'
        if exists:
            w.write(w.p('cwd', *rp, 'keep.txt'), 'k')
            kept.append((['keep.txt'], 'k'))
            if inp.flag('cancelled'):
                w.write(w.p('cwd', *rp, cancel), 'stop')
            if usedir and inp.flag('stale'):
                w.write(w.p('cwd', *rp, *files[0][0]), 'stale')
        # a sibling whose name begins alike
        w.write(w.p('cwd', 'rem2', 'z'), 'zz')
        kw = {}
        if usedir:
            kw['local_directory'] = spell(inp, w, ld, inp.choice('ldform', inp.p['forms']))
        if usefile:
            kw['local_files'] = [spell(inp, w, 'o', inp.choice('oform', ['rel', 'abs'])) + '/' + f3]
        rd = spell(inp, w, rname, inp.p['rform'])
        s = inp.call('ctor', M.CopySender, properties={'remote_directory': rd}, cancelfile=cancel, **kw)
        r = inp.call('send', s.send)
        inp.reach('sent')
        want = list(kept)
        if usedir:
            want += files
        if usefile:
            want.append(([f3], c3))
        inp.check(r[0] == len(want) - len(kept), lambda: f'reported {r[0]} files sent, {len(want) - len(kept)} were given')
        w.expect(w.p('cwd', *rp), want, 'remote directory')
        # nothing else has changed anywhere
        everything = [(['cwd', ld] + p, c) for p, c in files] + [(['cwd', 'o', f3], c3), (['cwd', 'rem2', 'z'], 'zz')] + \
            [(['cwd'] + rp + p, c) for p, c in want]
        w.expect(w.base, everything, 'all files')
        text = inp.choice('text', [None, '', 'gone'])
        inp.call('cancel', s.cancel, *([text] if text is not None else []))
        w.expect(w.p('cwd', *rp), want + [([cancel], text or '')], 'after cancel')
        inp.call('resend', s.send)
        w.expect(w.p('cwd', *rp), want, 'after cancel and resend')
    finally:
        w.done()


def crash(inp):
    """a failure at any point leaves complete old or complete new files under the names of files"""
    M = inp.mod('impactutils.transfer.copysender')
    w = World(inp)
    try:
        ld, files, (f3, c3) = build(inp, w)
        w.write(w.p('cwd', 'rem', *files[1][0]), 'previous version')
        w.write(w.p('cwd', 'rem', 'keep.txt'), 'k')
        k = inp.int('k', 0, 9)
        n = [0]

        def tick():
            n[0] += 1
            return bool(k == n[0] - 1)
        if inp.symbolic:
            def fault(op, path):
                if op in ('copy', 'rename', 'open') and tick():
                    raise OSError(errno.ENOSPC, 'No space left on device')
            w.fs.fault = fault
        else:
            real_copy, real_rename = shutil.copyfile, os.rename

            def copyfile(src, dst, **kk):
                if tick():
                    raise OSError(errno.ENOSPC, 'No space left on device')
                if tick():
                    data = open(src).read()
                    with open(dst, 'w') as f:
                        f.write(data[:len(data) // 2])
                    raise OSError(errno.ENOSPC, 'No space left on device')
                return real_copy(src, dst, **kk)

            def rename(a, b, **kk):
                if tick():
                    raise OSError(errno.ENOSPC, 'No space left on device')
                return real_rename(a, b, **kk)
            inp.patch(shutil, 'copyfile', copyfile)
            inp.patch(os, 'rename', rename)
            inp.patch(os, 'replace', rename)
        s = inp.call('ctor', M.CopySender, properties={'remote_directory': w.p('cwd', 'rem')}, local_directory=ld,
                     local_files=['o/' + f3])
        r, e = inp.raises(s.send)
        inp.reach('failed' if e else 'fine')
        if inp.symbolic:
            w.fs.fault = None
        inp.check((e is None) == (n[0] <= k), lambda: f'failure {k}: send returned {r!r}, raised {e!r}')
        got = w.files(w.p('cwd', 'rem'))
        for parts, ok in [(files[0][0], [files[0][1]]), (files[1][0], [files[1][1], 'previous version']), ([f3], [c3]),
                          (['keep.txt'], ['k'])]:
            for gp, gc in got:
                if len(gp) == len(parts) and inp.all([a == b for a, b in zip(gp, parts)]):
                    inp.check(inp.any([gc == x for x in ok]), lambda: f'after a failure {show(parts)} holds {gc!r}')
        if e is not None:
            # a later, undisturbed send completes the job
            k2 = inp.call('second send', s.send) if inp.symbolic or True else None
    finally:
        w.done()


F = ['rel', 'dot', 'abs', 'slash', 'relslash']
HARNESSES = [
    H(send, quick=[dict(dir=1, file=1, forms=[f], rform=r) for f in ('rel', 'abs', 'slash') for r in ('abs', 'rel')] +
      [dict(dir=1, file=0, forms=['dot', 'relslash'], rform='slash'), dict(dir=0, file=1, forms=[], rform='rel')],
      thorough=[dict(dir=1, file=1, forms=[f], rform=r, nl=n) for f in F for r in F for n in (1, 2)] +
      [dict(dir=0, file=1, forms=[], rform=r) for r in F],
      bounds='a directory with a file and a sub-directory, one more file; names of 1 (thorough 2) characters a, b, blank; '
             'relative and absolute spellings; remote directory absent, present, with stale and cancel files',
      reach=['sent'], max_paths=20000),
    H(crash, bounds='a failure at each of the first 10 file operations (9 are made)', reach=['failed', 'fine'], max_paths=5000),
]
ASSUMPTIONS = ['the file system is modelled in the symbolic run; witnesses replay on a real scratch directory to which all '
               'writes are confined by an audit hook', 'names in one remote directory do not collide']
