"""Backtracking regular-expression matcher over symbolic strings."""
import re
import re._parser as sp
import re._constants as K

import z3

from . import core, strs
from .strs import SStr, SBytes, mk, chars_of, dec, ceq, cin, plain, has_sym, is_sym, is_digit, WS


def catmatch(cat, c):
    n = str(cat)
    if 'NOT' in n:
        pos = catmatch({'CATEGORY_NOT_DIGIT': K.CATEGORY_DIGIT, 'CATEGORY_NOT_SPACE': K.CATEGORY_SPACE,
                        'CATEGORY_NOT_WORD': K.CATEGORY_WORD}[n], c)
        return (not pos) if isinstance(pos, bool) else z3.Not(pos)
    if cat == K.CATEGORY_DIGIT:
        return is_digit(c)
    if cat == K.CATEGORY_SPACE:
        return cin(c, WS)
    if cat == K.CATEGORY_WORD:
        if isinstance(c, str):
            return c.isalnum() or c == '_'
        return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90),
                     z3.And(c >= 97, c <= 122), c == 95)
    raise NotImplementedError(n)


def single(c, code, ic):
    if ic and not isinstance(c, str):
        c2 = chars_of(mk([c]).lower())[0] if True else c
    else:
        c2 = c.lower() if ic else c
    if ic:
        code = ord(chr(code).lower())
    return ceq(c2, chr(code))


def inset(items, c, ic=False):
    neg = False
    res = []
    for op, av in items:
        if op == K.NEGATE:
            neg = True
        elif op == K.LITERAL:
            res.append(single(c, av, ic))
        elif op == K.RANGE:
            lo, hi = av
            cc = c
            r = (lo <= ord(cc) <= hi) if isinstance(cc, str) else z3.And(cc >= lo, cc <= hi)
            res.append(r)
            if ic:
                for d in (32, -32):
                    r2 = (lo <= ord(cc) + d <= hi) if isinstance(cc, str) else z3.And(cc + d >= lo, cc + d <= hi)
                    res.append(r2)
        elif op == K.CATEGORY:
            res.append(catmatch(av, c))
        else:
            raise NotImplementedError(str(op))
    if any(r is True for r in res):
        out = True
    else:
        zs = [r for r in res if r is not False]
        out = z3.Or(zs) if zs else False
    if neg:
        return (not out) if isinstance(out, bool) else z3.Not(out)
    return out


class M:
    """match object"""

    def __init__(self, pat, string, cls, cs, start, end, groups):
        self.re, self.string, self.cls, self.cs = pat, string, cls, cs
        self._s, self._e, self._g = start, end, dict(groups)

    def span(self, g=0):
        if g == 0:
            return (self._s, self._e)
        if isinstance(g, str):
            g = self.re.groupindex[g]
        return self._g.get(g, (-1, -1))

    def start(self, g=0): return self.span(g)[0]
    def end(self, g=0): return self.span(g)[1]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            a, b = self.span(g)
            out.append(None if a < 0 else mk(self.cs[a:b], self.cls))
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        r = []
        for i in range(1, self.re.groups + 1):
            v = self.group(i)
            r.append(default if v is None else v)
        return tuple(r)

    def groupdict(self):
        return {k: self.group(k) for k in self.re.groupindex}

    def __bool__(self):
        return True


class Matcher:
    def __init__(self, pat):
        self.pat = pat
        p = pat.pattern
        if isinstance(p, bytes):
            p = p.decode('latin-1')
        self.tree = sp.parse(p, pat.flags & ~re.UNICODE if isinstance(pat.pattern, bytes) else pat.flags)
        self.ic = bool(pat.flags & re.I)
        self.ml = bool(pat.flags & re.M)
        self.dotall = bool(pat.flags & re.S)

    def seq(self, items, i, pos, g, k):
        """match items[i:] at pos then continuation k(pos, g); -> result or None"""
        if i == len(items):
            return k(pos, g)
        op, av = items[i]
        cs = self.cs
        nxt = lambda p, gg: self.seq(items, i + 1, p, gg, k)
        if op == K.LITERAL:
            if pos < len(cs) and dec(single(cs[pos], av, self.ic)):
                return nxt(pos + 1, g)
            return None
        if op == K.NOT_LITERAL:
            if pos < len(cs) and not dec(single(cs[pos], av, self.ic)):
                return nxt(pos + 1, g)
            return None
        if op == K.ANY:
            if pos < len(cs) and (self.dotall or not dec(ceq(cs[pos], '\n'))):
                return nxt(pos + 1, g)
            return None
        if op == K.IN:
            if pos < len(cs) and dec(inset(av, cs[pos], self.ic)):
                return nxt(pos + 1, g)
            return None
        if op == K.AT:
            n = len(cs)
            if av in (K.AT_BEGINNING,):
                ok = pos == 0 or (self.ml and dec(ceq(cs[pos - 1], '\n')))
            elif av == K.AT_BEGINNING_STRING:
                ok = pos == 0
            elif av == K.AT_END:
                ok = pos == n or (pos == n - 1 and dec(ceq(cs[pos], '\n'))) or \
                    (self.ml and dec(ceq(cs[pos], '\n')))
            elif av == K.AT_END_STRING:
                ok = pos == n
            elif av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
                a = pos > 0 and dec(catmatch(K.CATEGORY_WORD, cs[pos - 1]))
                b = pos < n and dec(catmatch(K.CATEGORY_WORD, cs[pos]))
                ok = (a != b) == (av == K.AT_BOUNDARY)
            else:
                raise NotImplementedError(str(av))
            return nxt(pos, g) if ok else None
        if op == K.SUBPATTERN:
            gid, add, dele, sub = av
            def close(p, gg):
                if gid is not None:
                    gg = dict(gg)
                    gg[gid] = (pos, p)
                return nxt(p, gg)
            return self.seq(list(sub), 0, pos, g, close)
        if op == K.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            hi = 10 ** 9 if hi == K.MAXREPEAT else hi
            def rep(n, p, gg, last):
                if n < lo:
                    return self.seq(sub, 0, p, gg, lambda p2, g2: rep(n + 1, p2, g2, p))
                if op == K.MAX_REPEAT:
                    if n < hi and p != last:
                        r = self.seq(sub, 0, p, gg, lambda p2, g2: rep(n + 1, p2, g2, p) if p2 != p else None)
                        if r is not None:
                            return r
                    return nxt(p, gg)
                r = nxt(p, gg)
                if r is not None:
                    return r
                if n < hi:
                    return self.seq(sub, 0, p, gg, lambda p2, g2: rep(n + 1, p2, g2, p) if p2 != p else None)
                return None
            return rep(0, pos, g, -1)
        if op == K.ASSERT or op == K.ASSERT_NOT:
            d, sub = av
            if d < 0:
                w = sub.getwidth()[0]
                r = self.seq(list(sub), 0, pos - w, g, lambda p, gg: (p, gg)) if pos - w >= 0 else None
            else:
                r = self.seq(list(sub), 0, pos, g, lambda p, gg: (p, gg))
            if (r is not None) == (op == K.ASSERT):
                return nxt(pos, r[1] if r else g)
            return None
        if op == K.GROUPREF:
            a, b = g.get(av, (-1, -1))
            if a < 0:
                return None
            seg = cs[a:b]
            if pos + len(seg) <= len(cs) and dec(strs.conj([ceq(x, y) for x, y in zip(cs[pos:], seg)])):
                return nxt(pos + len(seg), g)
            return None
        raise NotImplementedError(str(op))

    def at(self, s, pos, full=False):
        self.cs = chars_of(s)
        end = len(self.cs)
        r = self.seq(list(self.tree), 0, pos, {},
                     lambda p, g: (p, g) if not full or p == end else None)
        if r is None:
            return None
        cls = SBytes if isinstance(s, (SBytes, bytes)) else SStr
        return M(self.pat, s, cls, self.cs, pos, r[0], r[1])

    def search(self, s, pos=0):
        for i in range(pos, len(chars_of(s)) + 1):
            m = self.at(s, i)
            if m is not None:
                return m
        return None

    def finditer(self, s):
        pos, n = 0, len(chars_of(s))
        last = -1
        while pos <= n:
            m = self.search(s, pos)
            if m is None:
                return
            if m.end() == m.start() and m.start() == last:
                pos = m.start() + 1
                last = -1
                # retry for a non-empty match from next position
                continue
            yield m
            last = m.end()
            pos = m.end() if m.end() > m.start() else m.end()
            if m.end() == m.start():
                pos = m.end() + 1
                last = -1

    def template(self, repl, m):
        if callable(repl):
            return chars_of(repl(m))
        r = chars_of(repl)
        out = []
        i = 0
        while i < len(r):
            if isinstance(r[i], str) and r[i] == '\\' and i + 1 < len(r) or \
                    (not isinstance(r[i], str) and i + 1 <= len(r) and dec(ceq(r[i], '\\'))):
                if i + 1 >= len(r):
                    raise re.error('bad escape (end of pattern)')
                c = plain(mk([r[i + 1]]))
                if c.isdigit():
                    j = i + 2
                    num = c
                    if c != '0' and j < len(r) and dec(is_digit(r[j])):
                        num += plain(mk([r[j]]))
                        j += 1
                    if int(num) > self.pat.groups:
                        raise re.error('invalid group reference')
                    v = m.group(int(num))
                    out += chars_of(v) if v is not None else []
                    i = j
                    continue
                if c == 'g':
                    j = i + 3
                    name = ''
                    while plain(mk([r[j]])) != '>':
                        name += plain(mk([r[j]]))
                        j += 1
                    v = m.group(int(name) if name.isdigit() else name)
                    out += chars_of(v) if v is not None else []
                    i = j + 1
                    continue
                esc = {'n': '\n', 't': '\t', '\\': '\\', 'r': '\r'}
                if c in esc:
                    out.append(esc[c])
                elif c.isalpha():
                    raise re.error('bad escape')
                else:
                    out += ['\\', c]
                i += 2
                continue
            out.append(r[i])
            i += 1
        return out

    def subn(self, repl, s, count=0):
        cs = chars_of(s)
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out += cs[last:m.start()]
            out += self.template(repl, m)
            last = m.end()
            n += 1
        out += cs[last:]
        return mk(out, SBytes if isinstance(s, (SBytes, bytes)) else SStr), n

    def split(self, s, maxsplit=0):
        cs = chars_of(s)
        cls = SBytes if isinstance(s, (SBytes, bytes)) else SStr
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(mk(cs[last:m.start()], cls))
            out += list(m.groups())
            last = m.end()
            n += 1
        out.append(mk(cs[last:], cls))
        return out


def comp(p, flags=0):
    return p if isinstance(p, re.Pattern) else re.compile(plain(p), flags)


def method(pat, name, args, kw):
    m = Matcher(pat)
    if name == 'match':
        return m.at(args[0], 0)
    if name == 'fullmatch':
        return m.at(args[0], 0, True)
    if name == 'search':
        return m.search(args[0])
    if name == 'finditer':
        return m.finditer(args[0])
    if name == 'findall':
        out = []
        for x in m.finditer(args[0]):
            gs = x.groups()
            out.append(x.group() if not gs else gs[0] if len(gs) == 1 else gs)
        return out
    if name == 'subn':
        return m.subn(*args, **kw)
    if name == 'sub':
        return m.subn(*args, **kw)[0]
    if name == 'split':
        return m.split(*args, **kw)
    raise NotImplementedError(name)


def register(R):
    for n in ('match', 'fullmatch', 'search', 'finditer', 'findall', 'split'):
        def f(pattern, string, *a, name=n, flags=0, **k):
            return method(comp(pattern, flags), name, (string,) + a, k)
        R(getattr(re, n), f)
    R(re.sub, lambda p, r, s, count=0, flags=0: method(comp(p, flags), 'sub', (r, s, count), {}))
    R(re.subn, lambda p, r, s, count=0, flags=0: method(comp(p, flags), 'subn', (r, s, count), {}))
    R(re.escape, lambda s: re.escape(plain(s)))
    R(re.compile, lambda p, flags=0: re.compile(plain(p), flags))
