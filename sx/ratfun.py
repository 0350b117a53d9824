"""Exact canonical forms of rational functions of the path's real variables
(sympy polynomial rings), used by geometric harnesses: divisions cancel and
perfect squares leave square roots without auxiliary variables.  Sound where
the code's divisors are already known to be non-zero on the path."""
from fractions import Fraction

import z3

ON = [False]
_cache = {}
_parsed = {}
LIMIT = 400


def reset():
    # forms are algebra, true on every path; relations depend on the path
    if len(_cache) + len(_parsed) > 40000:
        _cache.clear()
        _parsed.clear()
    _rel.clear()


def _leaves(e, out, seen):
    st = [e]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_rational_value(t) or z3.is_int_value(t):
            continue
        k = t.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV):
            st.extend(t.children())
        elif k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) or \
                k == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)):
            st.append(t.arg(0))
        else:
            out[i] = t
        if len(seen) > 20000:
            raise OverflowError


def _conv(e, gens, K):
    memo = {}

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i]
        if z3.is_int_value(t):
            r = K(t.as_long())
        elif z3.is_rational_value(t):
            r = K(_q(t.numerator_as_long(), t.denominator_as_long()))
        elif i in gens:
            r = gens[i]
        else:
            k = t.decl().kind()
            cs = [go(c) for c in t.children()] if k != z3.Z3_OP_POWER else None
            if k == z3.Z3_OP_ADD:
                r = cs[0]
                for c in cs[1:]:
                    r = r + c
            elif k == z3.Z3_OP_SUB:
                r = cs[0]
                for c in cs[1:]:
                    r = r - c
            elif k == z3.Z3_OP_MUL:
                r = cs[0]
                for c in cs[1:]:
                    r = r * c
            elif k == z3.Z3_OP_UMINUS:
                r = -cs[0]
            elif k == z3.Z3_OP_DIV:
                r = cs[0] / cs[1]
            else:
                r = go(t.arg(0)) ** t.arg(1).numerator_as_long()
        memo[i] = r
        return r
    return go(e)


def _q(a, b):
    from sympy import QQ
    return QQ(a, b)


def parse(e):
    """(fraction field element, generator terms) of a z3 real term, or None"""
    i = e.get_id()
    hit = _parsed.get(i)
    if hit is None:
        hit = _parsed[i] = (e, _parse(e))
    return hit[1]


def _parse(e):
    from sympy import field, QQ
    out = {}
    try:
        _leaves(e, out, set())
        if len(out) > 24:
            return None
        ids = sorted(out, key=lambda i: out[i].sexpr())
        if not ids:
            return None
        r = field([f'g{n}' for n in range(len(ids))], QQ)
        K, gs = r[0], r[1:]
        f = _conv(e, dict(zip(ids, gs)), K)
        return f, [out[i] for i in ids]
    except (OverflowError, ZeroDivisionError):
        return None


def term(p, gens):
    """polynomial element -> z3 term"""
    if not p:
        return z3.RealVal(0)
    s = []
    for mon, c in p.terms():
        f = [] if c == 1 and any(mon) else [z3.RealVal(Fraction(int(c.numerator), int(c.denominator)))]
        for g, n in zip(gens, mon):
            f += [g] * n
        s.append(f[0] if len(f) == 1 else z3.Product(f))
    return s[0] if len(s) == 1 else z3.Sum(s)


def canon(e):
    """equal term in cancelled form"""
    if not ON[0]:
        return e
    i = e.get_id()
    hit = _cache.get(i)
    if hit is not None:
        return hit[1]
    r = e
    p = parse(e)
    if p is not None:
        f, gens = p
        if len(f.numer) + len(f.denom) <= LIMIT:
            n = term(f.numer, gens)
            r = n if f.denom == 1 else n / term(f.denom, gens)
            r = z3.simplify(r)
    _cache[i] = (e, r)
    return r


_rel = {}


def sign_of(t, p):
    """sign of polynomial p (term t) when the path decides it, else None"""
    from . import core
    if len(p) > 8 or max(sum(m) for m in p.monoms()) > 3:
        return None
    if core.CUR.entails(t > 0):
        return 1
    if core.CUR.entails(t < 0):
        return -1
    return None


def relation(op, x, y):
    """x op y as a relation of a product of factors of unknown sign with 0;
    None if the terms are too large"""
    k = (op, x.get_id(), y.get_id())
    hit = _rel.get(k)
    if hit is not None:
        return hit[2]
    r = _relation(op, x, y)
    _rel[k] = (x, y, r)
    return r


def _relation(op, x, y):
    p = parse(x - y)
    if p is None:
        return None
    f, gens = p
    if len(f.numer) + len(f.denom) > 80:
        return None
    if not f.numer:
        return z3.BoolVal(op in ('==', '<=', '>='))
    sign, rest, zero = 1, [], []
    for poly, den in ((f.numer, 0), (f.denom, 1)):
        c, fs = poly.factor_list()
        if c < 0:
            sign = -sign
        for g, n in fs:
            t = term(g, gens)
            if n % 2 == 0:
                if not den:
                    zero.append(t)
                continue
            s = sign_of(t, g)
            if s is None:
                if den:
                    rest.append(t)
                else:
                    rest.append(t)
            else:
                sign *= s
    if op in ('==', '!='):
        zs = [t for t in rest + zero]
        num = [term(g, gens) == 0 for g, n in f.numer.factor_list()[1]]
        e = z3.Or(num) if num else z3.BoolVal(False)
        return z3.Not(e) if op == '!=' else e
    e = z3.RealVal(sign)
    if rest:
        e = z3.Product(rest) if len(rest) > 1 else rest[0]
        if sign < 0:
            e = -e
    zz = [t == 0 for t in zero]
    if op == '<':
        r = z3.And([e < 0] + [t != 0 for t in zero])
    elif op == '>':
        r = z3.And([e > 0] + [t != 0 for t in zero])
    elif op == '<=':
        r = z3.Or([e <= 0] + zz)
    else:
        r = z3.Or([e >= 0] + zz)
    return z3.simplify(r)


def roots(e):
    """e = k * prod(f^(2n)) * rest / ...: (k, [(f, n)], rest) with rest a term
    or None when nothing is left under the root; None if no squares found"""
    p = parse(e)
    if p is None:
        return None
    f, gens = p
    if len(f.numer) + len(f.denom) > LIMIT or not f.numer:
        return None
    k = Fraction(1)
    out, rest = [], []
    for poly, sign in ((f.numer, 1), (f.denom, -1)):
        c, fs = poly.sqf_list()
        c = Fraction(int(c.numerator), int(c.denominator))
        k = k * c if sign > 0 else k / c
        for g, n in fs:
            t = term(g, gens)
            if n // 2:
                out.append((t, sign * (n // 2)))
            if n % 2:
                rest.append((t, sign))
    num = [t for t, s in rest if s > 0]
    den = [t for t, s in rest if s < 0]
    r = None
    if rest:
        r = z3.Product(num) if num else z3.RealVal(1)
        if den:
            r = r / z3.Product(den)
        r = z3.simplify(r)
    return k, out, r
