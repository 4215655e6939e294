"""The relational part of an abstract state.

Facts is a conjunction kept as a product of simple domains: intervals on linear
templates, finite value sets for byte-like atoms, equalities used as rewrite
rules, an order graph for floating point values and truth values of opaque
predicates.  Nothing here searches: every query is answered by normalisation,
interval arithmetic, enumeration of one finite set, or reachability.
"""
from fractions import Fraction
import math

from poly import (Atom, Poly, INF, ZERO, ONE, as_poly, akey, eval_poly, ev, NoValue, free_atoms, subst, show, EVAL, linear_in)


class Cond:
    """lt0/le0/eq0/ne0 (Poly); b (Atom); flt/fle/feq/fne (x, y)."""
    __slots__ = ('op', 'args', 'key', 'pos')

    def __init__(self, op, *args, pos=True):
        self.op = op
        self.args = args
        self.pos = pos
        self.key = ('' if pos else '!') + op + '(' + ','.join(akey(a) for a in args) + ')'

    def __eq__(self, o):
        return isinstance(o, Cond) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return showc(self)

    def neg(self):
        o, a = self.op, self.args
        if o == 'lt0':
            return Cond('le0', -a[0])
        if o == 'le0':
            return Cond('lt0', -a[0])
        if o == 'eq0':
            return Cond('ne0', a[0])
        if o == 'ne0':
            return Cond('eq0', a[0])
        return Cond(o, *a, pos=not self.pos)


def showc(c):
    o, a = c.op, c.args
    if o == 'or':
        return ' or '.join('(' + ' and '.join(showc(x) for x in y) + ')' for y in a)
    if o == 'lt0':
        return f'{show(a[0])} < 0'
    if o == 'le0':
        return f'{show(a[0])} <= 0'
    if o == 'eq0':
        return f'{show(a[0])} == 0'
    if o == 'ne0':
        return f'{show(a[0])} != 0'
    s = f'{show(a[0])}' if o == 'b' else f'{show(a[0])} {dict(flt="<", fle="<=", feq="==")[o]} {show(a[1])}'
    return s if c.pos else f'not({s})'


def cmp_cond(op, a, b):
    """Cond for int/rational Poly comparison a op b."""
    d = a - b
    if op == '<':
        return Cond('lt0', d)
    if op == '<=':
        return Cond('le0', d)
    if op == '>':
        return Cond('lt0', -d)
    if op == '>=':
        return Cond('le0', -d)
    if op == '==':
        return Cond('eq0', d)
    if op == '!=':
        return Cond('ne0', d)
    raise ValueError(op)


FREE_NONNEG = {'len', 'vllen', 'cnt', 'starlen', 'bitlen', 'gcd'}
SMALL = 4096


class Facts:
    __slots__ = ('iv', 'fin', 'bools', 'rw', 'ints', 'ford', 'nan', 'neq', 'log')

    def __init__(self):
        self.iv = {}     # prim key -> (prim, lo, hi, lostrict, histrict)
        self.fin = {}    # atom key -> frozenset of ints
        self.bools = {}  # cond atom key -> bool
        self.rw = {}     # atom key -> Poly
        self.ints = {}   # poly key -> poly known integer valued
        self.ford = {}   # node -> {node: strict}
        self.nan = frozenset()
        self.neq = {}    # prim key -> frozenset of excluded constants
        self.log = ()    # the literals assumed, for reports

    def copy(self):
        f = Facts.__new__(Facts)
        f.iv = dict(self.iv)
        f.fin = dict(self.fin)
        f.bools = dict(self.bools)
        f.rw = dict(self.rw)
        f.ints = dict(self.ints)
        f.ford = {k: dict(v) for k, v in self.ford.items()}
        f.nan = self.nan
        f.neq = dict(self.neq)
        f.log = self.log
        return f

    # ------------------------------------------------------------ normal form
    def norm(self, p, depth=0):
        """Apply the equalities and re-normalise the compound atoms."""
        need = False
        for a in p.atoms():
            if a.key in self.rw or a.kind == 'floor' or (a.kind in EVAL and a.args):
                need = True
                break
        if not need or depth > 12:
            return p
        r = ZERO
        changed = False
        for (p2, ats), c in p.t.items():
            v = Poly.const(c)
            for a, e in ats:
                b = self.norm_atom(a, depth)
                if b.key != Poly.atom(a).key:
                    changed = True
                if e < 0:
                    i = b.inv()
                    if i is None:
                        i = Poly.atom(a).inv()
                    b, e = i, -e
                for _ in range(e):
                    v = v * b
            if p2:
                lin = ZERO
                for a, e in p2:
                    b = self.norm_atom(a, depth)
                    if b.key != Poly.atom(a).key:
                        changed = True
                    lin = lin + b * e
                q = Poly.pow2(lin)
                if q is None:
                    q = Poly({(p2, ()): Fraction(1)})
                v = v * q
            r = r + v
        if changed:
            return self.norm(r, depth + 1)
        return r

    def norm_atom(self, a, depth):
        if a.key in self.rw:
            return self.rw[a.key]
        if a.kind == 'floor':
            q = self.norm(a.args[0], depth + 1)
            return self.floor(q)
        if a.kind == 'bitlen':
            return self.bitlen(self.norm(a.args[0], depth + 1))
        return Poly.atom(a)

    def is_int_mono(self, m, c):
        p2, ats = m
        if any(e < 0 for _, e in ats):
            return False
        if any(a.typ != 'int' for a, _ in ats):
            return False
        d = c.denominator
        if not p2:
            return d == 1
        if d & (d - 1):
            return False
        lin = Poly.const(-(d.bit_length() - 1))
        for a, e in p2:
            lin = lin + Poly.atom(a) * e
        return self.bounds(lin)[0] >= 0

    def is_int(self, p):
        if p.key in self.ints or (-p).key in self.ints:
            return True
        rest = Poly({m: c for m, c in p.t.items() if not self.is_int_mono(m, c)})
        if not rest.t:
            return True
        return rest.key in self.ints or (-rest).key in self.ints

    def floor(self, p):
        if p.key in self.ints:
            return p
        ip, rp = {}, {}
        for m, c in p.t.items():
            if self.is_int_mono(m, c):
                ip[m] = c
            elif self.is_int_mono(m, Fraction(1)):
                f = math.floor(c)
                ip[m] = Fraction(f)
                rp[m] = c - f
            elif self._p2_int(m, c) is not None:
                ip[m] = c
            else:
                rp[m] = c
        ip, rp = Poly(ip), Poly(rp)
        if not rp.t:
            return ip
        if rp.key in self.ints:
            return p
        lo, hi, ls, hs = self.bounds4(rp)
        if lo > -INF:
            k = math.floor(lo)
            if hi < k + 1 or (hi == k + 1 and hs):
                return ip + k
        if len(rp.t) > 2:
            # the other way of rounding the coefficients
            r2 = Poly({m: (c - 1 if c >= Fraction(1, 2) and m != ((), ()) and self.is_int_mono(m, Fraction(1)) else c) for m, c in rp.t.items()})
            if r2.key != rp.key:
                lo, hi, ls, hs = self.bounds4(r2)
                if lo > -INF:
                    k = math.floor(lo)
                    if hi < k + 1 or (hi == k + 1 and hs):
                        return ip + (rp - r2) + k
        # floor((floor(X)+m)/q) = floor((X+m)/q)
        for m, c in rp.t.items():
            p2, ats = m
            if not p2 and len(ats) == 1 and ats[0][1] == 1 and ats[0][0].kind == 'floor' and c > 0 and (1 / c).denominator == 1:
                q = 1 / c
                k = rp.constant_part()
                rest = Poly({m2: c2 for m2, c2 in rp.t.items() if m2 != m and m2 != ((), ())})
                if all(self.is_int_mono(m2, c2 * q) for m2, c2 in rest.t.items()):
                    k = Fraction(math.floor(k * q))
                    return ip + self.floor((ats[0][0].args[0] + k) * Poly.const(1 / q) + rest)
        return ip + Poly.atom(Atom('floor', (rp,)))

    def _p2_int(self, m, c):
        return None

    def bitlen(self, p):
        lo, hi = self.bounds(p)
        e = p.pow2_exp()
        if e is not None and self.bounds(e)[0] >= 0:
            return e + 1
        if lo >= 0 and hi < INF:
            a, b = int(math.ceil(lo)).bit_length(), int(math.floor(hi)).bit_length()
            if a == b:
                return Poly.const(a)
        return Poly.atom(Atom('bitlen', (p,)))

    # ---------------------------------------------------------------- bounds
    def prim(self, p):
        """p = k + f*q with q primitive (leading coefficient positive) -> (q, f, k)"""
        k = p.constant_part()
        q = p - k
        if not q.t:
            return q, Fraction(1), k
        r, s = q.scale_to_ints()
        lead = min(r.t, key=lambda m: _mk(m))
        f = 1 / s
        if r.t[lead] < 0:
            r, f = -r, -f
        return r, f, k

    def bounds(self, p):
        b = self.bounds4(p)
        return b[0], b[1]

    def bounds4(self, p, depth=0):
        c = p.cval()
        if c is not None:
            return c, c, False, False
        one = self._single_finite(p)
        if one is not None:
            a, vals = one
            try:
                vs = [eval_poly(p, {a.key: v}) for v in ((min(vals), max(vals)) if vals and linear_in(p, a) else vals)]
                if vs:
                    return min(vs), max(vs), False, False
            except NoValue:
                pass
        q, f, k = self.prim(p)
        lo, hi, ls, hs = -INF, INF, False, False
        st = self.iv.get(q.key)
        if st is not None:
            lo, hi, ls, hs = st[1], st[2], st[3], st[4]
        if depth < 6:
            l2, h2 = self._arith(q, depth)
            if l2 > lo:
                lo, ls = l2, False
            if h2 < hi:
                hi, hs = h2, False
            # two-template combination: q = q1 + q2 over stored templates sharing atoms
            if (lo == -INF or hi == INF) and depth < 2:
                for (pr, l, h, s1, s2) in list(self.iv.values()):
                    if len(pr.t) < 2 or pr.key == q.key:
                        continue
                    for sg in (1, -1):
                        rest = q - pr * sg
                        if len(rest.t) >= len(q.t) and not (len(rest.t) == len(q.t) and len(pr.t) > 1):
                            continue
                        rl, rh, rls, rhs = self.bounds4(rest, depth + 2)
                        a_lo, a_hi, a_ls, a_hs = (l, h, s1, s2) if sg == 1 else (-h, -l, s2, s1)
                        if a_lo + rl > lo if not (a_lo == -INF or rl == -INF) else False:
                            lo, ls = a_lo + rl, a_ls or rls
                        if a_hi + rh < hi if not (a_hi == INF or rh == INF) else False:
                            hi, hs = a_hi + rh, a_hs or rhs
        if f >= 0:
            return _lin(lo, f, k), _lin(hi, f, k), ls, hs
        return _lin(hi, f, k), _lin(lo, f, k), hs, ls

    def _single_finite(self, p):
        fa = free_atoms(p)
        if len(fa) != 1:
            return None
        (key, a), = fa.items()
        vals = self.finite(a)
        if vals is None:
            return None
        return a, vals

    def finite(self, a):
        """explicit value set of an atom, if small"""
        if a.typ != 'int':
            return None
        s = self.fin.get(a.key)
        if s is not None:
            return sorted(s)
        if a.kind == 'byte':
            lo, hi = 0, 255
        else:
            lo, hi = -INF, INF
        st = self.iv.get(Poly.atom(a).key)
        if st is not None:
            lo, hi = max(lo, st[1]), min(hi, st[2])
        if lo > -INF and hi < INF and hi - lo <= SMALL:
            ex = self.neq.get(Poly.atom(a).key, ())
            return [v for v in range(int(math.ceil(lo)), int(math.floor(hi)) + 1) if v not in ex]
        return None

    def _plain(self, p, depth):
        lo, hi = Fraction(0), Fraction(0)
        for (p2, ats), c in p.t.items():
            l, h = c, c
            for a, e in ats:
                al, ah = self.abounds(a, depth)
                l, h = _imul((l, h), _ipow((al, ah), e))
            if p2:
                lin = ZERO
                for a, e in p2:
                    lin = lin + Poly.atom(a) * e
                el, eh = self.bounds4(lin, depth + 1)[:2]
                l, h = _imul((l, h), (_p2(el, 0), _p2(eh, INF)))
            lo, hi = lo + l if lo > -INF and l > -INF else -INF, hi + h if hi < INF and h < INF else INF
        return lo, hi

    def _arith(self, p, depth):
        lo, hi = self._plain(p, depth)
        if len(p.t) > 1 and depth < 6:
            # x - floor(x) lies in [0, 1): look through all the floors, or one of them
            fl = [(ats[0][0], c) for (p2, ats), c in p.t.items()
                  if not p2 and len(ats) == 1 and ats[0][1] == 1 and ats[0][0].kind == 'floor']
            for grp in ([fl] + [[x] for x in fl] if len(fl) > 1 else [fl] if fl else []):
                q, d0, d1 = p, Fraction(0), Fraction(0)
                for a, c in grp:
                    e = a.args[0]
                    q = q + (e - Poly.atom(a)) * c
                    D = math.lcm(*[x.denominator for x in e.t.values()])
                    top = Fraction(D - 1, D) if self.is_int(e * D) else Fraction(1)
                    if c > 0:
                        d0 -= c * top
                    else:
                        d1 -= c * top
                if len(q.t) >= len(p.t):
                    continue
                l, h = self._plain(q, depth + 1)
                lo, hi = max(lo, l + d0), min(hi, h + d1)
            if fl and (len(fl) > 1 or len(p.t) > 2):
                l, h = self._digits(p, fl, depth)
                lo, hi = max(lo, l), min(hi, h)
        return lo, hi

    def _digits(self, p, fl, depth):
        """bounds through the mixed-radix digits x = D*f1 + r0, f1 = m*f2 + r1, ... of nested floors"""
        size = lambda e: max(abs(c) for m, c in e.t.items() if m != ((), ()))
        try:
            fl = sorted(fl, key=lambda x: -size(x[0].args[0]))
        except ValueError:
            return -INF, INF
        e1 = fl[0][0].args[0]
        chain, prev = [], None
        for a, c in fl:
            e = a.args[0]
            m = size(e1) / size(e)
            if m.denominator != 1 or (e * m - e1).t or (prev and (m / prev).denominator != 1):
                continue
            chain.append((a, c, m))
            prev = m
        D = math.lcm(*[x.denominator for x in e1.t.values()])
        base = e1 * D
        if not self.is_int(base):
            return -INF, INF
        rest = p
        for a, c, m in chain:
            rest = rest - Poly.atom(a) * c
        lead = max((m for m in base.t if m != ((), ())), key=lambda m: (abs(base.t[m]), akey(m)))
        al = rest.t.get(lead, Fraction(0)) / base.t[lead]
        rest = rest - base * al
        lo, hi = self._plain(rest, depth + 1)
        b, step = al, D
        for i, (a, c, m) in enumerate(chain):
            r = b * (step - 1)
            lo, hi = lo + min(r, 0), hi + max(r, 0)
            b = c + b * step
            step = chain[i + 1][2] / m if i + 1 < len(chain) else 1
        l, h = _imul((b, b), self.abounds(chain[-1][0], depth + 1)) if b else (Fraction(0), Fraction(0))
        return lo + l, hi + h

    def abounds(self, a, depth=0):
        s = self.fin.get(a.key)
        if s:
            return min(s), max(s)
        lo, hi = -INF, INF
        if a.kind == 'byte':
            lo, hi = 0, 255
        elif a.kind != 'bitlen' and a.kind in FREE_NONNEG or a.kind in ('vl', 'intfrom'):
            lo = 0
        elif a.kind == 'floor':
            l, h, ls, hs = self.bounds4(a.args[0], depth + 1)
            lo = math.floor(l) if l > -INF else -INF
            hi = (math.floor(h) if not (hs and h == math.floor(h)) else h - 1) if h < INF else INF
        elif a.kind == 'bitlen':
            l, h = self.bounds4(a.args[0], depth + 1)[:2]
            if l >= 0:
                lo = int(l).bit_length()
                if h < INF:
                    hi = int(h).bit_length()
            elif h < INF and l > -INF:
                lo, hi = 0, max(int(abs(l)).bit_length(), int(abs(h)).bit_length())
            else:
                lo = 0
        elif a.kind in ('fint', 'fround', 'ffloor', 'fceil'):
            l, h = self.fbounds(a.args[0])
            if a.kind == 'fint':
                lo = int(l) if abs(l) < INF else l
                hi = int(h) if abs(h) < INF else h
            else:
                lo = math.floor(l) if abs(l) < INF else l
                hi = math.ceil(h) if abs(h) < INF else h
        elif a.kind == 'and':
            l1, h1 = self.bounds4(a.args[0], depth + 1)[:2]
            l2, h2 = self.bounds4(a.args[1], depth + 1)[:2]
            if l1 >= 0 or l2 >= 0:
                lo = 0
                hi = min([h for l, h in ((l1, h1), (l2, h2)) if l >= 0])
        elif a.kind in ('or', 'xor'):
            l1, h1 = self.bounds4(a.args[0], depth + 1)[:2]
            l2, h2 = self.bounds4(a.args[1], depth + 1)[:2]
            if l1 >= 0 and l2 >= 0:
                lo = max(l1, l2) if a.kind == 'or' else 0
                if h1 < INF and h2 < INF:
                    hi = (1 << max(int(h1), int(h2)).bit_length()) - 1
        st = self.iv.get(Poly.atom(a).key)
        if st is not None:
            lo, hi = max(lo, st[1]), min(hi, st[2])
        return lo, hi

    # --------------------------------------------------------------- decision
    def simplify(self, c):
        """Normal form of a Cond; True/False when decided syntactically."""
        if c.op in ('lt0', 'le0', 'eq0', 'ne0'):
            p = self.norm(c.args[0])
            m = _pow2_cmp(p)
            if m is not None:
                sgn, lin = m  # p = sgn*(2^a - 2^b), lin = a-b
                p = lin if sgn > 0 else -lin
            return Cond(c.op, p)
        return c

    def decide(self, c, nocanon=False):
        if not nocanon:
            c = self.simplify(c)
        o = c.op
        if o == 'b':
            v = self.bools.get(c.args[0].key)
            if v is None:
                return None
            return v if c.pos else not v
        if o in ('lt0', 'le0', 'eq0', 'ne0'):
            p = c.args[0]
            v = p.cval()
            if v is not None:
                return {'lt0': v < 0, 'le0': v <= 0, 'eq0': v == 0, 'ne0': v != 0}[o]
            lo, hi, ls, hs = self.bounds4(p)
            pos = lo > 0 or (lo == 0 and ls)
            neg = hi < 0 or (hi == 0 and hs)
            if o == 'lt0':
                if neg:
                    return True
                if lo >= 0:
                    return False
            elif o == 'le0':
                if hi <= 0:
                    return True
                if pos:
                    return False
            else:
                if pos or neg:
                    return o == 'ne0'
                if lo == hi == 0:
                    return o == 'eq0'
                q, f, k = self.prim(p)
                if q.t and -k / f in self.neq.get(q.key, ()):
                    return o == 'ne0'
                if not self.is_int(p) and self._never_int(p):
                    return o == 'ne0'
            one = self._single_finite(p)
            if one is not None:
                a, vals = one
                try:
                    if o in ('lt0', 'le0') and linear_in(p, a):
                        ts = ()
                    else:
                        ts = {_holds(o, eval_poly(p, {a.key: v})) for v in vals}
                    if len(ts) == 1:
                        return ts.pop()
                except NoValue:
                    pass
            q = _canon2(p) if not nocanon else None
            if q is not None:
                d = self.decide(Cond(o, q), True)
                if d is not None:
                    return d
            if not nocanon:
                return self._linear(o, p)
            return None
        # floats
        x, y = c.args
        v = self._fdecide(o, x, y)
        if v is None:
            return None
        return v if c.pos else not v

    def _linear(self, o, p):
        """decide p op 0 from the linear constraints over the same terms (Fourier-Motzkin)"""
        if not any(len(x[0].t) > 1 for x in self.iv.values()):
            return None
        base = self._system(p)
        if base is None:
            return None
        if o in ('eq0', 'ne0'):
            if infeasible(base + [(p, True)]) and infeasible(base + [(-p, True)]):
                return o == 'eq0'
            if infeasible(base + [(p, False), (-p, False)]):
                return o == 'ne0'
            return None
        integral = self.is_int(p)
        strict = o == 'lt0'
        # negation: p >= 0 (lt0) or p > 0 (le0)
        if infeasible(base + [((-p + 1) if integral and not strict and _integral(p) else -p, not strict and not (integral and _integral(p)))]):
            return True
        if infeasible(base + [((p + 1) if integral and strict and _integral(p) else p, strict and not (integral and _integral(p)))]):
            return False
        return None

    def contradictory(self):
        for pr, lo, hi, ls, hs in list(self.iv.values()):
            if len(pr.t) > 1:
                rows = self._system(self.norm(pr))
                if rows and infeasible(rows):
                    return True
        fl = [c for c in self.log if c.op in ('flt', 'fle')]
        if fl:
            # the float comparisons against what the integers alone allow
            f = self.copy()
            f.ford, f.bools = {}, {}
            if any(f.decide(c) is False for c in fl):
                return True
        return False

    def _system(self, p):
        """constraints [(poly, strict)] meaning poly < 0 / <= 0 on terms connected with p"""
        todo = {m for m in p.t if m != ((), ())}
        seen = set(todo)
        rows, used = [], set()
        cand = []
        for k, (pr, lo, hi, ls, hs) in self.iv.items():
            q = pr
            if any(a.key in self.rw for (p2, ats) in pr.t for a, _ in ats):
                q = self.norm(pr)
            cand.append((k, q, lo, hi, ls, hs))
        multi = False
        grow = True
        while grow:
            grow = False
            for k, q, lo, hi, ls, hs in cand:
                if k in used:
                    continue
                ms = {m for m in q.t if m != ((), ())}
                if ms & seen:
                    used.add(k)
                    if len(ms) > 1:
                        multi = True
                    if hi < INF:
                        rows.append((q - hi, hs))
                    if lo > -INF:
                        rows.append((-q + lo, ls))
                    if ms - seen:
                        seen |= ms
                        grow = True
            if len(rows) > 40 or len(seen) > 12:
                return None
        if not multi:
            return None
        for m in seen:
            if len(m[1]) == 1 and m[1][0][1] == 1 and not m[0]:
                l, h = self.abounds(m[1][0][0])
                q = Poly({m: Fraction(1)})
                if l > -INF:
                    rows.append((-q + l, False))
                if h < INF:
                    rows.append((q - h, False))
        return rows

    def _never_int(self, p):
        return False

    def assume(self, c, note=True):
        """Facts with c added, or None when contradictory."""
        d = self.decide(c)
        if d is True:
            return self
        if d is False:
            return None
        f = self.copy()
        if note:
            f.log = f.log + (c,)
        if not f._add(c):
            return None
        return f

    def _add(self, c):
        c = self.simplify(c)
        o = c.op
        if o in ('lt0', 'le0', 'eq0', 'ne0'):
            q = _canon2(c.args[0])
            if q is not None and not self._add1(Cond(o, q)):
                return False
        return self._add1(c)

    def _add1(self, c):
        o = c.op
        if o == 'b':
            self.bools[c.args[0].key] = c.pos
            return True
        if o in ('flt', 'fle', 'feq'):
            x, y = _fnode(c.args[0]), _fnode(c.args[1])
            if o == 'feq':
                if c.pos:
                    self._fedge(x, y, False)
                    self._fedge(y, x, False)
                else:
                    self.bools[c.args and Cond('feq', *c.args).key] = False
                return True
            strict = o == 'flt'
            if c.pos:
                self._fedge(x, y, strict)
            else:
                self._fedge(y, x, not strict)
            return True
        p = c.args[0]
        one = self._single_finite(p)
        if one is not None:
            a, vals = one
            try:
                keep = frozenset(v for v in vals if _holds(o, eval_poly(p, {a.key: v})))
                if not keep:
                    return False
                self.fin[a.key] = keep
                if len(keep) == 1 and a.key not in self.rw:
                    self.rw[a.key] = Poly.const(next(iter(keep)))
                return True
            except NoValue:
                pass
        q, f, k = self.prim(p)
        # f*q + k  op 0
        b = -k / f
        if o == 'ne0':
            self.neq[q.key] = frozenset(self.neq.get(q.key, frozenset()) | {b})
            st = self.iv.get(q.key)
            lo, hi = self.bounds(q)
            if self.is_int(q):
                if lo == b:
                    return self._setiv(q, lo + 1, INF, False, False)
                if hi == b:
                    return self._setiv(q, -INF, hi - 1, False, False)
            else:
                if lo == b:
                    return self._setiv(q, lo, INF, True, False)
                if hi == b:
                    return self._setiv(q, -INF, hi, False, True)
            return True
        if o == 'eq0':
            if not self._setiv(q, b, b, False, False):
                return False
            self._rewrite(p)
            return True
        strict = o == 'lt0'
        if f > 0:
            return self._setiv(q, -INF, b, False, strict)
        return self._setiv(q, b, INF, strict, False)

    def _setiv(self, q, lo, hi, ls, hs):
        if self.is_int(q):
            if lo > -INF:
                n = math.ceil(lo)
                lo = Fraction(n + 1 if (ls and n == lo) else n)
                ls = False
            if hi < INF:
                n = math.floor(hi)
                hi = Fraction(n - 1 if (hs and n == hi) else n)
                hs = False
        st = self.iv.get(q.key)
        if st:
            if st[1] > lo or (st[1] == lo and st[3]):
                lo, ls = st[1], st[3]
            if st[2] < hi or (st[2] == hi and st[4]):
                hi, hs = st[2], st[4]
        if self.is_int(q):
            ex = self.neq.get(q.key, ())
            while lo in ex:
                lo += 1
            while hi in ex:
                hi -= 1
        if lo > hi or (lo == hi and (ls or hs)):
            return False
        self.iv[q.key] = (q, lo, hi, ls, hs)
        l2, h2 = self._arith(q, 0)
        if l2 > hi or h2 < lo:
            return False
        at = q.single_atom()
        if at is not None:
            l2, h2 = self.abounds(at)
            l2, h2 = max(lo, l2), min(hi, h2)
            if l2 > h2:
                return False
            if l2 == h2 and at.key not in self.rw:
                self._rewrite(q - l2)
            if at.kind == 'floor':
                # floor(e) <= h  <=>  e < h + 1;  floor(e) >= l  <=>  e >= l
                e = at.args[0]
                if h2 < INF and self._add1(Cond('lt0', e - (h2 + 1))) is False:
                    return False
                if l2 > -INF and self._add1(Cond('le0', l2 - e)) is False:
                    return False
        return True

    def _rewrite(self, p):
        cands = []
        for (p2, ats), c in p.t.items():
            if not p2 and len(ats) == 1 and ats[0][1] == 1:
                a = ats[0][0]
                rest = Poly({m: v for m, v in p.t.items() if m != (p2, ats)}) * Poly.const(-1 / c)
                if not _contains(rest, a):
                    # eliminate compound atoms first, then inputs whose replacement is integral
                    rank = 0 if a.kind == 'floor' else 1 if a.kind == 'phi' else 2 if rest.is_const() else 3
                    if a.kind == 'floor' or self.is_int(rest):
                        cands.append((rank, a.key, a, rest))
        if not cands:
            return
        _, _, a, rest = min(cands, key=lambda z: (z[0], z[1]))
        if a.key in self.rw:
            return
        self.rw[a.key] = rest
        if not self.is_int(rest):
            self.ints[rest.key] = rest
        # keep the rule set idempotent
        for k in list(self.rw):
            if k != a.key and _contains(self.rw[k], a):
                self.rw[k] = subst(self.rw[k], {a.key: rest})
        # carry the bounds over
        st = self.iv.get(Poly.atom(a).key)
        if st is not None and not rest.is_const():
            q, f, k = self.prim(rest)
            lo = (st[1] - k) / f if abs(st[1]) < INF else (st[1] if f > 0 else -st[1])
            hi = (st[2] - k) / f if abs(st[2]) < INF else (st[2] if f > 0 else -st[2])
            if f < 0:
                lo, hi = hi, lo
            self._setiv(q, lo, hi, False, False)
        if a.key in self.fin and rest.is_const():
            pass

    # ----------------------------------------------------------------- floats
    def _fedge(self, x, y, strict):
        d = self.ford.setdefault(x, {})
        d[y] = d.get(y, False) or strict

    def _fpath(self, x, y):
        """None, 'le' or 'lt': derivable order from x to y"""
        consts = [n for n in set(self.ford) | {m for d in self.ford.values() for m in d} | {x, y}
                  if isinstance(n, float)]
        best = {x: False}
        todo = [x]
        while todo:
            n = todo.pop()
            s = best[n]
            nxt = dict(self.ford.get(n, {}))
            if isinstance(n, float):
                for m in consts:
                    if n < m:
                        nxt[m] = True
                    elif n == m and m != x:
                        nxt.setdefault(m, False)
            for m, st in nxt.items():
                v = s or st
                if m not in best or (v and not best[m]):
                    best[m] = v
                    todo.append(m)
        if y not in best:
            return None
        return 'lt' if best[y] else 'le'

    def _fdecide(self, o, x, y):
        nx, ny = _fnode(x), _fnode(y)
        if (isinstance(nx, float) and math.isnan(nx)) or (isinstance(ny, float) and math.isnan(ny)):
            return False
        for z in (x, y):
            if isinstance(z, Atom) and (z.key in self.nan or any(k in self.nan for k in free_atoms(z))):
                return False
        if isinstance(nx, float) and isinstance(ny, float):
            return {'flt': nx < ny, 'fle': nx <= ny, 'feq': nx == ny}[o]
        if nx == ny:
            return o != 'flt'
        a = self._fpath(nx, ny)
        b = self._fpath(ny, nx)
        if o == 'flt':
            if a == 'lt':
                return True
            if b is not None:
                return False
        elif o == 'fle':
            if a is not None:
                return True
            if b == 'lt':
                return False
        else:
            if a == 'lt' or b == 'lt':
                return False
            if a is not None and b is not None:
                return True
            v = self.bools.get(Cond('feq', x, y).key)
            if v is not None:
                return v
        l1, h1 = self.fbounds(x)
        l2, h2 = self.fbounds(y)
        if o == 'flt':
            if h1 < l2:
                return True
            if l1 >= h2:
                return False
        elif o == 'fle':
            if h1 <= l2:
                return True
            if l1 > h2:
                return False
        else:
            if h1 < l2 or l1 > h2:
                return False
        return None

    def fbounds(self, x):
        """closed interval of a float term"""
        if isinstance(x, Poly):
            l, h = self.bounds(x)
            return (float(l) if abs(l) < 1e300 else l), (float(h) if abs(h) < 1e300 else h)
        if isinstance(x, (int, float, Fraction)):
            return float(x), float(x)
        k = x.kind
        lo, hi = -INF, INF
        if k == 'fconst':
            return x.args[0], x.args[0]
        if k == 'ffromint':
            lo, hi = self.fbounds(x.args[0])
        elif k in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.fbounds(x.args[0]), self.fbounds(x.args[1])
            if k == 'fadd':
                lo, hi = a[0] + b[0], a[1] + b[1]
            elif k == 'fsub':
                lo, hi = a[0] - b[1], a[1] - b[0]
            elif k == 'fmul':
                lo, hi = _imul(a, b)
            elif b[0] == b[1] and 0 < b[0] < INF:
                lo, hi = a[0] / b[0], a[1] / b[0]
            elif b[0] > 0 or b[1] < 0:
                inv = (0.0 if abs(b[1]) == INF else 1 / b[1], 0.0 if abs(b[0]) == INF else 1 / b[0])
                lo, hi = _imul(a, inv)
                # a/b with a == b correctly rounded: keep exact at the ends
                if a[1] == b[0] == b[1]:
                    hi = 1.0
            if lo != lo:
                lo = -INF
            if hi != hi:
                hi = INF
        elif k == 'fneg':
            a = self.fbounds(x.args[0])
            lo, hi = -a[1], -a[0]
        elif k == 'fsqrt':
            lo = 0.0
        node = _fnode(x)
        for c in [n for n in set(self.ford) | {m for d in self.ford.values() for m in d} if isinstance(n, float)]:
            if self._fpath(c, node) is not None:
                lo = max(lo, c)
            if self._fpath(node, c) is not None:
                hi = min(hi, c)
        return lo, hi

    # ------------------------------------------------------------------ merge
    def join(self, o):
        """the facts both sides agree on (weaker than either)"""
        f = Facts()
        def look(fa, v):
            w = fa.iv.get(v[0].key)
            if w is not None:
                return w
            np_ = fa.norm(v[0])
            b = fa.bounds4(np_)
            if v[1] == 0 and b[0] < 0 and fa.decide(Cond('le0', -np_)) is True:
                b = (Fraction(0), b[1], False, b[3])
            if v[2] == 0 and b[1] > 0 and fa.decide(Cond('le0', np_)) is True:
                b = (b[0], Fraction(0), b[2], False)
            return (v[0],) + b
        for k in list(self.iv) + [k for k in o.iv if k not in self.iv]:
            v = self.iv[k] if k in self.iv else look(self, o.iv[k])
            w = o.iv[k] if k in o.iv else look(o, self.iv[k])
            lo, ls = (v[1], v[3]) if v[1] < w[1] else (w[1], w[3])
            hi, hs = (v[2], v[4]) if v[2] > w[2] else (w[2], w[4])
            if v[1] == w[1]:
                ls = v[3] and w[3]
            if v[2] == w[2]:
                hs = v[4] and w[4]
            if lo > -INF or hi < INF:
                f.iv[k] = (v[0], lo, hi, ls, hs)
        for k, v in self.fin.items():
            if k in o.fin:
                f.fin[k] = v | o.fin[k]
        f.bools = {k: v for k, v in self.bools.items() if o.bools.get(k) == v}
        f.rw = {k: v for k, v in self.rw.items() if o.rw.get(k) == v}
        f.ints = {k: v for k, v in self.ints.items() if k in o.ints}
        for x, d in self.ford.items():
            for y, s in d.items():
                if y in o.ford.get(x, {}):
                    f._fedge(x, y, s and o.ford[x][y])
        f.nan = self.nan & o.nan
        f.neq = {k: v & o.neq[k] for k, v in self.neq.items() if k in o.neq}
        mine, theirs = set(c.key for c in self.log), set(c.key for c in o.log)
        r1 = tuple(c for c in self.log if c.key not in theirs)
        r2 = tuple(c for c in o.log if c.key not in mine)
        f.log = tuple(c for c in self.log if c.key in theirs)
        if r1 and r2:
            f.log = f.log + (Cond('or', r1, r2),)
        return f

    def key(self):
        return repr((sorted((k, v[1:]) for k, v in self.iv.items()), sorted((k, sorted(v)) for k, v in self.fin.items()),
                     sorted(self.bools.items()), sorted((k, v.key) for k, v in self.rw.items()),
                     sorted(map(str, self.nan)), sorted((k, sorted(v)) for k, v in self.neq.items()),
                     sorted((str(x), sorted((str(y), s) for y, s in d.items())) for x, d in self.ford.items())))


def _integral(p):
    return all(c.denominator == 1 for c in p.t.values())


def infeasible(rows, cap=160):
    """no rational point satisfies all rows (poly < 0 if strict else <= 0); False when unsure"""
    one = ((), ())
    rs = {}

    def put(d, c, st):
        if not d:
            return c > 0 or (c == 0 and st)
        f = abs(next(iter(d.values())))
        key = tuple(sorted(((m, v / f) for m, v in d.items()), key=lambda x: repr(x[0])))
        c = c / f
        o = rs.get(key)
        if o is None or c > o[0] or (c == o[0] and st and not o[1]):
            rs[key] = (c, st)
        return False
    for p, st in rows:
        d = {m: v for m, v in p.t.items() if m != one}
        if put(d, p.t.get(one, Fraction(0)), st):
            return True
    while rs:
        cnt = {}
        for key in rs:
            for m, v in key:
                a = cnt.setdefault(m, [0, 0])
                a[0 if v > 0 else 1] += 1
        if not cnt:
            return False
        m = min(cnt, key=lambda m: cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1])
        up, dn, keep = [], [], {}
        for key, (c, st) in rs.items():
            v = dict(key).get(m)
            if v is None:
                keep[key] = (c, st)
            elif v > 0:
                up.append((dict(key), v, c, st))
            else:
                dn.append((dict(key), v, c, st))
        if len(keep) + len(up) * len(dn) > cap:
            return False
        rs.clear()
        rs.update(keep)
        for d1, v1, c1, s1 in up:
            for d2, v2, c2, s2 in dn:
                d = {}
                for x, v in d1.items():
                    d[x] = v * -v2
                for x, v in d2.items():
                    d[x] = d.get(x, 0) + v * v1
                d = {x: v for x, v in d.items() if v}
                if put(d, c1 * -v2 + c2 * v1, s1 or s2):
                    return True
    return False


def _mk(m):
    from poly import mkey
    return mkey(m)


def _holds(o, v):
    return {'lt0': v < 0, 'le0': v <= 0, 'eq0': v == 0, 'ne0': v != 0}[o]


def _lin(x, f, k):
    return x * f + k if abs(x) < INF else (x if f > 0 else -x)


def _contains(p, a):
    def walk(x):
        if isinstance(x, Poly):
            return any(walk(y) for y in x.atoms())
        if isinstance(x, Atom):
            return x.key == a.key or any(walk(y) for y in x.args)
        if isinstance(x, tuple):
            return any(walk(y) for y in x)
        return False
    return walk(p)


def _imul(a, b):
    vs = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                vs.append(0)
            else:
                vs.append(x * y)
    return min(vs), max(vs)


def _ipow(a, e):
    lo, hi = a
    if e == 1:
        return a
    if e < 0:
        if lo > 0:
            return _ipow((0 if hi == INF else 1 / Fraction(hi), 1 / Fraction(lo)), -e)
        return -INF, INF
    r = (1, 1)
    if e % 2 == 0:
        m = max(abs(lo), abs(hi))
        z = 0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        return (z ** e, m ** e if m < INF else INF)
    for _ in range(e):
        r = _imul(r, a)
    return r


def _p2(e, inf):
    if e == INF:
        return INF
    if e == -INF:
        return 0
    e = int(e)
    if e > 4096:
        return INF
    if e < -4096:
        return Fraction(0)
    return Fraction(2) ** e


def _canon2(p):
    """p times a power of two that makes the form canonical up to such factors (same sign), or None"""
    if len(p.t) < 2 or not any(m[0] for m in p.t):
        return None
    m = min(p.t, key=lambda m: (len(m[1]), ''.join(a.key for a, _ in m[1])))
    if not m[0]:
        return None
    return p * Poly({(tuple((a, -e) for a, e in m[0]), ()): Fraction(1)})


def _pow2_cmp(p):
    """p = sgn*(2^a - 2^b) -> (sgn, a-b) so that sign(p) = sgn*sign(a-b)"""
    if len(p.t) != 2:
        return None
    (m1, c1), (m2, c2) = p.t.items()
    if c1 * c2 > 0:
        return None
    if m1[1] != m2[1]:
        return None
    if m1[1]:
        return None
    if not m1[0] and not m2[0]:
        return None
    if c1 < 0:
        (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
    a = Poly({m1: c1}).pow2_exp()
    b = Poly({m2: -c2}).pow2_exp()
    if a is None or b is None:
        # compare 2^a with a constant that is not a power of two
        return None
    return 1, a - b


def _fnode(x):
    if isinstance(x, (int, float, Fraction)):
        return float(x)
    if isinstance(x, Poly):
        c = x.cval()
        if c is not None:
            return float(c)
        a = x.single_atom()
        return 'i:' + x.key
    if x.kind == 'fconst':
        return float(x.args[0])
    if x.kind == 'ffromint':
        return _fnode(x.args[0])
    return x.key
