"""Sending through PDL: the command the client is started with, and its outcome."""
import datetime
import subprocess

from sx import fakessh
from sx.fakefs import World
from sx.harness import H

AL = "a \"$`\\;'&"
REQ = ['java', 'jarfile', 'privatekey', 'configfile', 'source', 'type', 'code', 'eventsource', 'eventsourcecode']
T1 = datetime.datetime(2020, 2, 29, 1, 2, 3, 456789)
T2 = datetime.datetime(1999, 12, 31, 23, 59, 59)


class Shell:
    """records what is started; commands exit with a chosen status"""

    def __init__(self, inp, status):
        self.inp, self.status, self.runs = inp, status, []

    def popen(sh):
        class Popen:
            def __init__(self, args, *a, shell=False, **k):
                if shell:
                    if isinstance(args, list):
                        args = args[0]
                    try:
                        toks = fakessh.words(args)
                    except SyntaxError as e:
                        sh.inp.fail(f'the shell cannot parse {args!r}: {e}')
                    ops = [t for t in toks if t[0] == 'op']
                    sh.inp.check(not ops, lambda: f'{args!r} is more than one command: {ops}')
                    argv = [t[1] for t in toks]
                else:
                    argv = [x for x in args]
                sh.runs.append(argv)
                self.args, self.pid = args, 1
                self.returncode = None
                self.stdout = self.stderr = None

            def communicate(self, *a, **k):
                self.returncode = sh.status
                return b'the output', b'the errors'

            def wait(self, *a, **k):
                self.returncode = sh.status
                return sh.status

            poll = wait

            def kill(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass
        return Popen


def setup(inp, status=0):
    sh = Shell(inp, status)
    M = inp.mod('impactutils.transfer.pdlsender')
    inp.patch(subprocess, 'Popen', sh.popen())
    return M, sh


def started(inp, sh, props, want, optional=()):
    """one command was started: the client with exactly these arguments"""
    inp.check(len(sh.runs) == 1, lambda: f'{len(sh.runs)} commands started')
    argv = sh.runs[0]
    inp.check(len(argv) > 3 and inp.all([argv[0] == props['java'], argv[1] == '-jar', argv[2] == props['jarfile']]),
              lambda: f'started {argv[:3]}')
    rest = argv[3:]
    want = list(want) + ['--send', '--privateKey=' + props['privatekey'], '--configFile=' + props['configfile']] + \
        [f'--{k}=' + props[k] for k in ('source', 'type', 'code', 'eventsource', 'eventsourcecode')]
    for w in want:
        inp.check(inp.any([r == w for r in rest]), lambda: f'argument {w!r} missing in {rest}')
    for r in rest:
        inp.check(inp.any([r == w for w in want + list(optional)]), lambda: f'argument {r!r} was not asked for')
    inp.check(len(want) <= len(rest) <= len(want) + len(optional), lambda: f'arguments {rest}')


def base(inp):
    p = {k: k + '1' for k in REQ}
    p['java'] = '/usr/bin/java'
    return p


def strings(inp):
    """whatever characters the values hold"""
    M, sh = setup(inp)
    w = World(inp)
    try:
        p = base(inp)
        which = inp.p['which']
        v = inp.string('v', 0 if which in ('product', 'required') else 1, inp.p['n'], AL)
        kw, want, n = {}, [], 0
        if which == 'required':
            p[inp.choice('key', [k for k in REQ if k != 'java'])] = v
        elif which == 'product':
            kw['product_properties'] = {'title': v, 'n': 5}
            want += ['--property-title=' + v, '--property-n=5']
        elif which == 'file':
            w.write(w.p('cwd', 'o', v), 'x')
            kw['local_files'] = ['o/' + v]
            want.append('--file=o/' + v)
            n = 1
        else:
            w.write(w.p('cwd', v, 'f'), 'x')
            w.write(w.p('cwd', v, 's', 'g'), 'x')
            kw['local_directory'] = v
            want.append('--directory=' + v)
            n = 2
        s = inp.call('ctor', M.PDLSender, properties=p, **kw)
        if inp.flag('cancel'):
            inp.call('cancel', s.cancel)
            files = [x for x in want if x[:3] == '--f' or x[:3] == '--d']
            started(inp, sh, p, [x for x in want if x[:3] == '--p'] + ['--status=DELETE'], files)
        else:
            r = inp.call('send', s.send)
            started(inp, sh, p, want + ['--status=UPDATE'])
            inp.check(r[0] == n, lambda: f'{r[0]} files reported, {n} given')
        inp.reach('sent')
    finally:
        w.done()


def close_to(inp, text, v, tol):
    x = inp.parse_float(text)
    return inp.all([x - v <= 1.001 * tol, v - x <= 1.001 * tol])


def values(inp):
    """numbers and times arrive within the printed precision"""
    M, sh = setup(inp)
    p = base(inp)
    tol = {'latitude': 0.5e-4, 'longitude': 0.5e-4, 'depth': 0.05, 'magnitude': 0.05}
    given = {}
    for k, rng in (('latitude', 90), ('longitude', 180), ('depth', 800), ('magnitude', 10)):
        if k == inp.p['opt']:
            given[k] = inp.real(k, -rng, rng)
        elif inp.p['opt'] is None and inp.flag('has_' + k):
            given[k] = 1.5
    if inp.p['opt'] is None and inp.flag('has_time'):
        given['eventtime'] = inp.choice('t', [T1, T2])
    p.update(given)
    f = inp.real('f', -1000, 1000) if inp.p['opt'] == 'f' else -1.25
    i = inp.int('i', -10**6, 10**6) if inp.p['opt'] == 'i' else 7
    prod = {'f': f, 'i': i, 'b': True, 'none': None, 't': T1}
    keep = dict(prod)
    s = inp.call('ctor', M.PDLSender, properties=p, product_properties=prod)
    cancel = inp.flag('cancel')
    inp.call('send', s.cancel if cancel else s.send)
    inp.reach('sent')
    inp.check(len(sh.runs) == 1, 'one command')
    got = {}
    for a in sh.runs[0][3:]:
        j = a.find('=')
        if j < 0:
            continue
        k = inp.str(a[:j])
        inp.check(k not in got, lambda: f'{k} given twice')
        got[k] = a[j + 1:]
    for k, t in tol.items():
        inp.check((('--' + k) in got) == (k in given), lambda: f'{k}: arguments {list(got)}')
        if k in given:
            inp.check(close_to(inp, got['--' + k], given[k], t), lambda: f'{k} = {given[k]} sent as {got["--" + k]}')
    inp.check(('--eventtime' in got) == ('eventtime' in given), lambda: f'arguments {list(got)}')
    if 'eventtime' in given:
        t = {T1: '2020-02-29T01:02:03.456Z', T2: '1999-12-31T23:59:59.000Z'}[given['eventtime']]
        inp.check(got['--eventtime'] == t, lambda: f'event time {given["eventtime"]} sent as {got["--eventtime"]}')
    inp.check(close_to(inp, got['--property-f'], f, 0.5e-4), lambda: f'{f} sent as {got["--property-f"]}')
    inp.check(inp.parse_int(got['--property-i']) == i, lambda: f'{i} sent as {got["--property-i"]}')
    inp.check(got['--property-t'] == '2020-02-29T01:02:03.456', lambda: f'time sent as {got["--property-t"]}')
    inp.check(got['--property-none'] == 'None', lambda: f'None sent as {got["--property-none"]}')
    inp.check(len(got) == 7 + 6 + len(given), lambda: f'arguments {list(got)}, given {list(given)}')
    inp.check(set(prod) == set(keep), 'product properties were changed')


def outcome(inp):
    """any status but 0 is an error; several files are refused before anything runs"""
    status = inp.int('status', -20, 255)
    M, sh = setup(inp, status)
    X = inp.mod('impactutils.exceptions')
    C = inp.mod('impactutils.io.cmd')
    w = World(inp)
    try:
        nf = inp.choice('files', [0, 1, 2, 3])
        for k in range(nf):
            w.write(w.p('cwd', f'f{k}'), 'x')
        s = inp.call('ctor', M.PDLSender, properties=base(inp), local_files=[f'f{k}' for k in range(nf)])
        what = inp.choice('what', ['send', 'cancel', 'command'])
        if what == 'command':
            r = inp.call('get_command_output', C.get_command_output, 'some command')
            inp.check(inp.pytype(r[0]) is bool and bool(r[0]) == bool(status == 0), lambda: f'exit status {status}: {r}')
            inp.check(r[1] == b'the output' and r[2] == b'the errors', lambda: f'{r}')
            inp.reach('command')
            return
        r, e = inp.raises(getattr(s, what))
        if what == 'send' and nf > 1:
            inp.check(isinstance(e, X.PDLError) and not sh.runs, lambda: f'{nf} files: {r!r} {e!r}, started {sh.runs}')
            inp.reach('several')
            return
        if status == 0:
            inp.check(e is None, lambda: f'{e!r}')
            inp.check(what == 'cancel' or r[0] == nf, lambda: f'{r}')
            inp.check('the output' in str(r), lambda: f'{r}')
            inp.reach('fine')
        else:
            inp.check(isinstance(e, X.PDLError), lambda: f'exit status {status}: {r!r} {e!r}')
            inp.reach('failed')
    finally:
        w.done()


HARNESSES = [
    H(strings, quick=[dict(which=k, n=2) for k in ('required', 'product', 'file', 'dir')],
      thorough=[dict(which=k, n=3) for k in ('required', 'product', 'file', 'dir')],
      bounds='values of up to 2 (3) characters out of nine, eight of them special to the shell', reach=['sent'], max_paths=20000),
    H(values, quick=[dict(opt=k) for k in ('latitude', 'longitude', 'depth', 'magnitude', 'f', 'i', None)],
      bounds='every number in range, every subset of the optional properties', reach=['sent'], max_paths=4000),
    H(outcome, bounds='exit statuses -20..255, 0..3 files', reach=['failed', 'fine', 'several', 'command']),
]
ASSUMPTIONS = ['the operating system shell is modelled by a tokeniser for POSIX quoting; no command is started',
               'values do not contain the placeholders of the command template',
               'values printed with a fixed number of decimals are correctly rounded']
