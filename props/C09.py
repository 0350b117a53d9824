"""Running an external command."""
import subprocess

from sx.harness import H


def command(inp):
    code = inp.int('code', -64, 255)
    out = inp.string('out', 0, inp.p['n'], 'ab\n \t\x00\xff', kind='bytes')
    err = inp.string('err', 0, inp.p['n'], 'xy\n\xff', kind='bytes')
    cmd = inp.string('cmd', 1, 3, 'ls |;')
    seen = []

    def check_args(a, kw):
        given = a[0] if a else kw.get('args')
        seen.append((given, kw))

    class FakeProc:
        def __init__(self, *a, **kw):
            check_args(a, kw)
            self.returncode = None
            self.kw = kw
            self.pid = 1

        def _o(self, name, v):
            return v if self.kw.get(name) == subprocess.PIPE else None

        def communicate(self, input=None, timeout=None):
            self.returncode = code
            if self.kw.get('stderr') == subprocess.STDOUT:
                return out + err, None
            return self._o('stdout', out), self._o('stderr', err)

        def wait(self, timeout=None):
            self.returncode = code
            return code

        def poll(self):
            self.returncode = code
            return code

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def fake_run(*a, **kw):
        if kw.pop('capture_output', False):
            kw['stdout'] = kw['stderr'] = subprocess.PIPE
        chk = kw.pop('check', False)
        p = FakeProc(*a, **kw)
        o, e = p.communicate()
        if chk and code != 0:
            raise subprocess.CalledProcessError(code, a[0], o, e)
        r = subprocess.CompletedProcess(a[0] if a else None, 0, o, e)
        r.returncode = code
        return r
    inp.stub(subprocess, 'Popen', FakeProc)
    inp.stub(subprocess, 'run', fake_run)
    cm = inp.mod('impactutils.io.cmd')
    r = inp.call('get_command_output', cm.get_command_output, cmd)
    inp.reach('ran')
    inp.check(len(r) == 3, f'{len(r)} results')
    ok, so, se = r
    inp.check(len(seen) == 1, f'ran {len(seen)} commands')
    given, kw = seen[0]
    inp.check(inp.all([given == cmd, bool(kw.get('shell'))]), lambda: f'ran {given!r} shell={kw.get("shell")} for {cmd!r}')
    inp.check(inp.pytype(ok) is bool, lambda: f'success flag is {ok!r}')
    inp.check(inp.any([inp.all([ok, code == 0]), inp.all([inp.no(ok), inp.no(code == 0)])]),
              lambda: f'exit code {code} reported as {ok}')
    inp.check(inp.all([so == out, se == err]), lambda: f'exit {code}: stdout {so!r} (is {out!r}) stderr {se!r} (is {err!r})')


def real_shell(inp):
    """a sample of the same through a real shell"""
    cm = inp.mod('impactutils.io.cmd')
    code = inp.choice('code', [0, 1, 2, 7, 126, 255])
    n = inp.choice('n', [0, 3])
    if inp.symbolic:
        inp.check(True, '')
        return
    ok, so, se = inp.call('real', cm.get_command_output, f"printf '%{n}s' ''; printf e >&2; exit {code}")
    inp.check(ok is (code == 0) and so == b' ' * n and se == b'e', f'exit {code}: {ok} {so} {se}')


HARNESSES = [
    H(command, quick=[dict(n=2)], thorough=[dict(n=4)], bounds='every exit status -64..255, output streams up to 2 (thorough 4) arbitrary bytes of a 7-byte alphabet', reach=['ran']),
    H(real_shell, bounds='replay-only harness: the process library model against a real shell'),
]
ASSUMPTIONS = ['the process-creation library is modelled by its documented contract; a replay-only harness runs real shells']
