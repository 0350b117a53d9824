#!/usr/bin/env python3
"""Development aid: mutates a file of /repo in private copies (mount namespace)
and reports mutants that pass the stable tests and that no check of the file catches.

mutate.py FILE CHECKS N [seed] [from-line to-line]   e.g. mutate.py impactutils/time/timeutils.py C05,C06 20
"""
import ast, json, os, random, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '*', ast.FloorDiv: '/', ast.Pow: '*'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):
            for k in ast.walk(n):
                skip.add(id(k))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('debug', 'warning', 'info', 'print', 'warn'):
            for k in ast.walk(n):
                skip.add(id(k))
    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []
    infunc = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for st in f.body:
                for k in ast.walk(st):
                    infunc.add(id(k))
            for d in f.args.defaults + f.args.kw_defaults:
                if d is not None:
                    infunc.add(id(d))
    def rep(n, text):
        s, e = span(n)
        new = b[:s] + text.encode() + b[e:]
        out.append((n.lineno, b[s:e].decode()[:60] + '  ->  ' + text[:60], new.decode()))
    U = ast.unparse
    for n in ast.walk(tree):
        if id(n) not in infunc or id(n) in skip:
            if not (isinstance(n, ast.Raise) and id(n) in infunc):
                continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, f'({U(n.left)} {CMP[type(n.ops[0])]} {U(n.comparators[0])})')
            if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                rep(n, f'({U(n.left)} {({ast.Lt: ">", ast.LtE: ">=", ast.Gt: "<", ast.GtE: "<="})[type(n.ops[0])]} {U(n.comparators[0])})')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
            rep(n, f'(({U(n.left)}) {BIN[type(n.op)]} ({U(n.right)}))')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + op.join(f'({U(v)})' for v in n.values) + ')')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                rep(n, '(' + o2.join(f'({U(v)})' for v in rest) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(n, f'({U(n.operand)})')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, str(not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            rep(n, repr(n.value + 1) if isinstance(n.value, int) else repr(n.value * 1.25 + (n.value == 0)))
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                rep(n.test, 'True'), rep(n.test, 'False')
        elif isinstance(n, (ast.Raise, ast.AugAssign, ast.Continue, ast.Break)):
            rep(n, 'pass')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, 'pass')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            rep(n, 'pass')
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            rep(n, f'{U(n.func)}({U(n.args[1])}, {U(n.args[0])})')
    return out


def ns(w, cmd, timeout):
    sh = f'mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && mount --bind {w}/work /opt/vp/work && cd /verif && {cmd}'
    p = subprocess.run(['timeout', str(timeout), 'unshare', '-Urm', '--pid', '--fork', '--kill-child', 'sh', '-c', sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def prepare(w):
    subprocess.run(['rm', '-rf', w])
    os.makedirs(w + '/work')
    subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
    subprocess.run(['cp', '-a', '/verif', w + '/verif'], check=True)
    subprocess.run(f'cp -a /opt/vp/work/. {w}/work/ 2>/dev/null', shell=True)


STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()


def one(args):
    w, f, m, checks = args
    line, what, src = m
    try:
        compile(src, f, 'exec')
    except SyntaxError:
        return m, 'syntax', ''
    p = f'{w}/repo/{f}'
    open(p, 'w').write(src)
    for c in checks:
        rc, o = ns(w, f'./run.sh check {c} quick', 600)
        if rc == 1 and f'VIOLATION property={c}' in o:
            return m, 'caught ' + c, ''
    rc, o = ns(w, 'bash /opt/vp/test.sh /tmp/out_$$.json >/dev/null 2>&1; cat /tmp/out_$$.json', 300)
    try:
        passed = set(json.loads(o[o.index('{'):])['passed'])
    except Exception:
        return m, 'tests?', o[-200:]
    base = BASE
    if base - passed:
        return m, 'killed by tests', ''
    return m, 'MISSED', ''


def main():
    global BASE
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passed', 'tests', 'stable_tests'):
        if k in b:
            BASE = set(b[k]); break
    f, checks, n = sys.argv[1], sys.argv[2].split(','), int(sys.argv[3])
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    lo, hi = (int(sys.argv[5]), int(sys.argv[6])) if len(sys.argv) > 6 else (0, 10 ** 9)
    W = int(os.environ.get('W', '3'))
    orig = open(f'{REPO}/{f}').read()
    ms = [m for m in mutants(orig) if lo <= m[0] <= hi]
    random.Random(seed).shuffle(ms)
    total = len(ms)
    ms = ms[:n]
    tag = f'{os.getpid()}'
    ws = [f'/tmp/mu/{tag}_{k}' for k in range(W)]
    for w in ws:
        prepare(w)
    import queue
    q = queue.Queue()
    for w in ws:
        q.put(w)
    def go(m):
        w = q.get()
        try:
            r = one((w, f, m, checks))
            open(f'{w}/repo/{f}', 'w').write(orig)
        finally:
            q.put(w)
        print(f'{r[1]:18s} {f}:{r[0][0]}: {r[0][1]!r} {r[2]}', flush=True)
        return r[1]
    with ThreadPoolExecutor(W) as ex:
        rs = list(ex.map(go, ms))
    from collections import Counter
    print(f, 'of', total, dict(Counter(x.split()[0] for x in rs)))
    for w in ws:
        subprocess.run(['rm', '-rf', w])


main()
