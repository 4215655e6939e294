"""Arithmetic on abstract numbers: canonical forms for integer and float operators."""
from fractions import Fraction
import math

from poly import Poly, Atom, ZERO, ONE, EVAL, evi, ev, NoValue, INF
from facts import Cond, cmp_cond
from values import N, F, B, K, U

EVAL['bitcount'] = lambda a, e: bin(abs(evi(a[0], e))).count('1')


def fterm(v):
    """float term of a number value"""
    if isinstance(v, F):
        return v.a
    if isinstance(v, K):
        return Atom('fconst', (float(v.v),), 'float')
    if isinstance(v, N):
        c = v.p.cval()
        if c is not None:
            return Atom('fconst', (float(c),), 'float')
        return Atom('ffromint', (v.p,), 'float')
    return None


def mkf(kind, *args):
    """float value of an operator application"""
    if all(isinstance(a, Atom) and a.kind == 'fconst' for a in args):
        try:
            return K(EVAL[kind](tuple(args), {}))
        except NoValue:
            pass
    if kind in ('fadd', 'fmul'):
        args = tuple(sorted(args, key=lambda a: a.key))
    return F(Atom(kind, args, 'float'))


def isnum(v):
    return isinstance(v, (N, F)) or (isinstance(v, K) and isinstance(v.v, (bool, float)))


def isint(v):
    return isinstance(v, N) or (isinstance(v, K) and isinstance(v.v, bool))


def asn(v):
    return N(int(v.v)) if isinstance(v, K) else v


def val2(p, facts):
    """(lin, q): p = 2^lin * q with q odd, when that can be read off; else None"""
    if not p.t:
        return None
    e = p.pow2_exp()
    if e is not None:
        return e, ONE
    # common power-of-two content
    items = list(p.t.items())
    common = None
    for (p2, ats), c in items:
        d = dict((a.key, (a, k)) for a, k in p2)
        common = d if common is None else {k: (v[0], min(v[1], d[k][1])) for k, v in common.items() if k in d}
    lin = ZERO
    for a, k in common.values():
        lin = lin + Poly.atom(a) * k
    s = Poly.pow2(-lin)
    if s is None:
        return None
    q = p * s
    k = None
    for c in q.t.values():
        n, d = c.numerator, c.denominator
        if d & (d - 1):
            return None
        v = (n & -n).bit_length() - 1 - (d.bit_length() - 1)
        k = v if k is None else min(k, v)
    q = q * Poly.const(Fraction(2) ** (-k))
    lin = lin + k
    # odd: odd constant, everything else even
    odd = int(q.constant_part()) & 1
    if not odd:
        return None
    for (p2, ats), c in q.t.items():
        if not p2 and not ats:
            continue
        if any(x < 0 for _, x in ats) or any(a.typ != 'int' for a, _ in ats):
            return None
        if c.denominator != 1:
            return None
        if int(c) & 1:
            if not p2:
                return None
            l2 = ZERO
            for a, k2 in p2:
                l2 = l2 + Poly.atom(a) * k2
            if facts.bounds(l2)[0] < 1:
                return None
        elif p2:
            l2 = ZERO
            for a, k2 in p2:
                l2 = l2 + Poly.atom(a) * k2
            if facts.bounds(l2)[0] < 0:
                return None
    return lin, q


def mult2(p, facts):
    """a constant k such that p is a multiple of 2^k"""
    best = None
    for (p2, ats), c in p.t.items():
        if any(e < 0 for _, e in ats) or any(a.typ != 'int' for a, _ in ats):
            return 0
        n, d = abs(c.numerator), c.denominator
        if d & (d - 1):
            return 0
        k = (n & -n).bit_length() - 1 - (d.bit_length() - 1)
        if p2:
            lin = ZERO
            for a, e in p2:
                lin = lin + Poly.atom(a) * e
            lo = facts.bounds(lin)[0]
            if lo == -INF:
                return 0
            k += int(math.floor(lo))
        best = k if best is None else min(best, k)
    return max(0, best if best is not None else 4096)


def p2c(k):
    return Poly.const(Fraction(2) ** k)


def shr(p, k, f):
    return f.floor(f.norm(p * p2c(-k)))


def mod2(p, k, f):
    return p - p2c(k) * shr(p, k, f)


def band_const(p, m, f):
    """p & m for an int constant m"""
    if m < 0:
        return p - band_const(p, -m - 1, f) if m != -1 else p
    r = ZERO
    i = 0
    while m >> i:
        if not (m >> i) & 1:
            i += 1
            continue
        j = i
        while (m >> j) & 1:
            j += 1
        # bits i..j-1
        r = r + p2c(i) * mod2(shr(p, i, f), j - i, f)
        i = j
    return f.norm(r)


def fin_fold(f, op, a, b):
    """constant result when both depend on one finite atom and agree"""
    return None


def band(a, b, f):
    ca, cb = a.ival(), b.ival()
    if ca is not None and cb is not None:
        return Poly.const(ca & cb)
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        return band_const(a, cb, f)
    if a == b:
        return a
    for x, y in ((a, b), (b, a)):
        v = val2(x, f)
        if v is not None:
            lin, q = v
            P = Poly.pow2(lin)
            if P is not None and f.bounds(lin)[0] >= 0:
                if y == x - 1:
                    return f.norm(x - P)
                if y == -x:
                    return P
        # mask 2^k - 1 with symbolic k
        e = (y + 1).pow2_exp()
        if e is not None and f.bounds(e)[0] >= 0:
            P = Poly.pow2(e)
            return f.norm(x - P * f.floor(f.norm(x * P.inv())))
        e = y.pow2_exp()
        if e is not None and f.bounds(e)[0] >= 0:
            P = Poly.pow2(e)
            s = f.floor(f.norm(x * P.inv()))
            return f.norm(P * mod2(s, 1, f))
    x, y = sorted((a, b), key=lambda p: p.key)
    return Poly.atom(Atom('and', (x, y)))


def disjoint(a, b, f):
    """no bit is set in both (a multiple of 2^k, 0 <= b < 2^k or the other way round)"""
    for x, y in ((a, b), (b, a)):
        lo, hi = f.bounds(y)
        if lo >= 0 and hi < INF:
            if int(math.floor(hi)).bit_length() <= mult2(x, f):
                return True
        v = None
        if lo >= 0:
            items = list(x.t)
            if len(items) == 1:
                p2, ats = items[0]
                if p2:
                    lin = ZERO
                    for at, e in p2:
                        lin = lin + Poly.atom(at) * e
                    c = x.t[items[0]]
                    if c.denominator == 1:
                        P = Poly.pow2(lin)
                        if f.decide(Cond('lt0', y - P)) is True:
                            return True
    return False


def bor(a, b, f):
    ca, cb = a.ival(), b.ival()
    if ca is not None and cb is not None:
        return Poly.const(ca | cb)
    if a == b:
        return a
    if disjoint(a, b, f):
        return a + b
    # a | c = a - (a & c) + c
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        return f.norm(a - band_const(a, cb, f) + cb)
    x, y = sorted((a, b), key=lambda p: p.key)
    return Poly.atom(Atom('or', (x, y)))


def bxor(a, b, f):
    ca, cb = a.ival(), b.ival()
    if ca is not None and cb is not None:
        return Poly.const(ca ^ cb)
    if disjoint(a, b, f):
        return a + b
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        return f.norm(a + cb - band_const(a, cb, f) * 2)
    x, y = sorted((a, b), key=lambda p: p.key)
    return Poly.atom(Atom('xor', (x, y)))


def bitlen(p, f):
    """(Poly, extra conditions)"""
    v = val2(p, f)
    if v is not None and f.bounds(v[0])[0] >= 0:
        lin, q = v
        if q == ONE:
            return lin + 1, []
        if f.bounds(q)[0] >= 1:
            b = f.bitlen(q)
            ex = []
            P = Poly.pow2(b)
            if P is not None and not b.is_const():
                ex.append(Cond('lt0', q - P))
                h = Poly.pow2(b - 1)
                ex.append(Cond('lt0', h - q) if f.bounds(q)[0] >= 3 else Cond('le0', h - q))
            return lin + b, ex
    b = f.bitlen(p)
    ex = []
    if not b.is_const() and f.bounds(p)[0] >= 1:
        P, h = Poly.pow2(b), Poly.pow2(b - 1)
        if P is not None:
            ex = [Cond('lt0', p - P), Cond('le0', h - p)]
    return b, ex


def int_op(I, op, a, b, st, node):
    """operators on two N values -> [(state, value)]"""
    f = st.facts
    x, y = f.norm(a.p), f.norm(b.p)
    if op == '+':
        return [(st, N(f.norm(x + y)))]
    if op == '-':
        return [(st, N(f.norm(x - y)))]
    if op == '*':
        return [(st, N(f.norm(x * y)))]
    if op in ('//', '%', '/'):
        out = []
        for s, z in I.split(st, Cond('eq0', y)):
            if z:
                I.throw(s, 'ZeroDivisionError', node)
                continue
            if op == '/':
                if x.cval() is not None and y.cval() is not None:
                    cx, cy = x.cval(), y.cval()
                    try:
                        out.append((s, K(int(cx) / int(cy))))
                    except OverflowError:
                        I.throw(s, 'OverflowError', node)
                    continue
                out.append((s, mkf('fdiv', fterm(N(x)), fterm(N(y)))))
                continue
            q = idiv(x, y, s.facts)
            out.append((s, N(q) if op == '//' else N(s.facts.norm(x - y * q))))
        return out
    if op in ('<<', '>>'):
        out = []
        for s, neg in I.split(st, Cond('lt0', y)):
            if neg:
                I.throw(s, 'ValueError', node)
                continue
            P = Poly.pow2(y if op == '<<' else -y)
            if P is None:
                out.append((s, I.unk('shift by a non-linear amount', node)))
                continue
            r = s.facts.norm(x * P)
            out.append((s, N(r if op == '<<' else s.facts.floor(r))))
        return out
    if op == '&':
        return [(st, N(band(x, y, f)))]
    if op == '|':
        return [(st, N(bor(x, y, f)))]
    if op == '^':
        return [(st, N(bxor(x, y, f)))]
    if op == '**':
        e = y.ival()
        c = x.ival()
        if e is not None and c is not None:
            if e >= 0:
                return [(st, N(c ** e))] if e < 5000 else [(st, I.unk('large power', node))]
            if c == 0:
                return I.throw(st, 'ZeroDivisionError', node)
            return [(st, K(c ** e))]
        if e is not None and 0 <= e <= 8:
            r = ONE
            for _ in range(e):
                r = r * x
            return [(st, N(f.norm(r)))]
        if c is not None and c > 0 and c & (c - 1) == 0:
            k = c.bit_length() - 1
            out = []
            for s, neg in I.split(st, Cond('lt0', y)):
                if neg:
                    out.append((s, mkf('fpow', fterm(a), fterm(N(y)))))
                    continue
                P = Poly.pow2(y * k)
                out.append((s, N(P) if P is not None else N(Poly.atom(Atom('powint', (x, y))))))
            return out
        out = []
        for s, neg in I.split(st, Cond('lt0', y)):
            out.append((s, mkf('fpow', fterm(a), fterm(N(y))) if neg else N(Poly.atom(Atom('powint', (x, y))))))
        return out
    return [(st, I.unk('operator ' + op, node))]


def idiv(x, y, f):
    i = y.inv()
    if i is not None:
        return f.floor(f.norm(x * i))
    if x.cval() is not None and y.cval() is not None:
        return Poly.const(math.floor(x.cval() / y.cval()))
    # x = c*y + r
    return Poly.atom(Atom('idiv', (x, y)))


def float_op(I, op, a, b, st, node):
    x, y = fterm(a), fterm(b)
    if op == '+':
        return [(st, mkf('fadd', x, y))]
    if op == '-':
        return [(st, mkf('fsub', x, y))]
    if op == '*':
        return [(st, mkf('fmul', x, y))]
    if op in ('/', '//', '%'):
        out = []
        for s, z in I.split(st, Cond('feq', y, Atom('fconst', (0.0,), 'float'))):
            if z:
                I.throw(s, 'ZeroDivisionError', node)
            else:
                out.append((s, mkf({'/': 'fdiv', '//': 'ffloordiv', '%': 'fmod'}[op], x, y)))
        return out
    if op == '**':
        return [(st, mkf('fpow', x, y))]
    return I.throw(st, 'TypeError', node)


def cmp_num(op, a, b):
    """Cond for two number values"""
    if isint(a) and isint(b):
        return cmp_cond(op, asn(a).p, asn(b).p)
    x, y = fterm(a), fterm(b)
    if op == '<':
        return Cond('flt', x, y)
    if op == '<=':
        return Cond('fle', x, y)
    if op == '>':
        return Cond('flt', y, x)
    if op == '>=':
        return Cond('fle', y, x)
    c = Cond('feq', *sorted((x, y), key=lambda z: z.key))
    return c if op == '==' else c.neg()
