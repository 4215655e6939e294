"""Value numbering for integer expressions.

A Poly is a Laurent polynomial over atoms with rational coefficients and with a
separate factor 2**(integer linear form), so that powers of two with unknown
exponents, exact divisions, shifts, masks and remainders all get one canonical
form.  Two expressions with the same canonical form have the same value for
every value of their atoms.
"""
from fractions import Fraction
import math

INF = math.inf


class Atom:
    """An uninterpreted (or canonical compound) value, identified by its key."""
    __slots__ = ('kind', 'args', 'key', 'typ', '_h')

    def __init__(self, kind, args=(), typ='int'):
        self.kind = kind
        self.args = tuple(args)
        self.typ = typ
        self.key = kind + '(' + ','.join(akey(a) for a in self.args) + ')'
        self._h = hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Atom) and self.key == o.key

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.kind in ('sym', 'phi'):
            return str(self.args[0])
        return self.key


def akey(a):
    k = getattr(a, 'key', None)
    if k is not None:
        return k
    if isinstance(a, tuple):
        return '[' + ','.join(akey(x) for x in a) + ']'
    return repr(a)


def sym(name, typ='int'):
    return Atom('sym', (name,), typ)


ONEM = ((), ())
CONSTS = {}


class Poly:
    __slots__ = ('t', 'key', '_h')

    def __init__(self, t):
        if len(t) == 1 and ONEM in t:
            c = t[ONEM]
            self.t = t if c else {}
            self.key = str(c)
            self._h = hash(self.key)
            return
        self.t = {m: c for m, c in t.items() if c != 0}
        items = sorted(((mkey(m), c) for m, c in self.t.items()))
        self.key = '+'.join(f'{c}*{k}' if k else f'{c}' for k, c in items) or '0'
        self._h = hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)

    # -- construction
    @staticmethod
    def const(c):
        if type(c) is int and -300 < c < 1000:
            p = CONSTS.get(c)
            if p is None:
                p = CONSTS[c] = Poly({ONEM: Fraction(c)})
            return p
        return Poly({ONEM: c if type(c) is Fraction else Fraction(c)})

    @staticmethod
    def atom(a):
        return Poly({((), ((a, 1),)): Fraction(1)})

    @staticmethod
    def pow2(lin):
        """2**lin for a Poly lin that is linear with integer coefficients, or None."""
        c = Fraction(1)
        p2 = []
        for (mp2, ats), co in lin.t.items():
            if mp2:
                return None
            if not ats:
                if co.denominator != 1:
                    return None
                if abs(co) > 4096:
                    return None
                c *= Fraction(2) ** int(co)
            elif len(ats) == 1 and ats[0][1] == 1 and co.denominator == 1:
                p2.append((ats[0][0], int(co)))
            else:
                return None
        p2.sort(key=lambda x: x[0].key)
        return Poly({(tuple(p2), ()): c})

    # -- queries
    def is_const(self):
        if len(self.t) == 1:
            return ONEM in self.t
        return all(m == ((), ()) for m in self.t)

    def cval(self):
        """constant value as Fraction, or None"""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1:
            return self.t.get(ONEM)
        return None

    def ival(self):
        c = self.cval()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def constant_part(self):
        return self.t.get(((), ()), Fraction(0))

    def mono(self):
        """(coef, p2, atoms) if a single monomial"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return c, m[0], m[1]
        return None

    def single_atom(self):
        """the atom a if self == 1*a"""
        m = self.mono()
        if m and m[0] == 1 and not m[1] and len(m[2]) == 1 and m[2][0][1] == 1:
            return m[2][0][0]
        return None

    def pow2_exp(self):
        """lin with self == 2**lin, or None"""
        m = self.mono()
        if not m or m[2]:
            return None
        c = m[0]
        if c <= 0:
            return None
        n, d = c.numerator, c.denominator
        if n & (n - 1) or d & (d - 1):
            return None
        e = n.bit_length() - d.bit_length()
        lin = Poly.const(e)
        for a, co in m[1]:
            lin = lin + Poly.atom(a) * co
        return lin

    def atoms(self):
        """top level atoms (including those in exponents)"""
        s = []
        seen = set()
        for p2, ats in self.t:
            for a, _ in p2:
                if a.key not in seen:
                    seen.add(a.key)
                    s.append(a)
            for a, _ in ats:
                if a.key not in seen:
                    seen.add(a.key)
                    s.append(a)
        return s

    # -- arithmetic
    def __add__(self, o):
        o = as_poly(o)
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-as_poly(o))

    def __rsub__(self, o):
        return as_poly(o) - self

    def __mul__(self, o):
        o = as_poly(o)
        t = {}
        for (p1, a1), c1 in self.t.items():
            for (p2, a2), c2 in o.t.items():
                m = (mulp(p1, p2), mulp(a1, a2))
                t[m] = t.get(m, 0) + c1 * c2
        return Poly(t)

    __rmul__ = __mul__

    def inv(self):
        m = self.mono()
        if not m:
            return None
        c, p2, ats = m
        return Poly({(tuple((a, -e) for a, e in p2), tuple((a, -e) for a, e in ats)): 1 / c})

    def scale_to_ints(self):
        """positive factor making the coefficients coprime integers -> (poly, factor)"""
        den = 1
        for c in self.t.values():
            den = den * c.denominator // math.gcd(den, c.denominator)
        g = 0
        for c in self.t.values():
            g = math.gcd(g, int(c * den))
        if g == 0:
            return self, Fraction(1)
        f = Fraction(den, g)
        return self * f, f


def as_poly(x):
    return x if isinstance(x, Poly) else Poly.const(x)


def mulp(a, b):
    if not a:
        return b
    if not b:
        return a
    d = {}
    o = {}
    for x, e in a + b:
        d[x.key] = d.get(x.key, 0) + e
        o[x.key] = x
    return tuple((o[k], d[k]) for k in sorted(d) if d[k] != 0)


def mkey(m):
    p2, ats = m
    s = '*'.join(f'{a.key}^{e}' if e != 1 else a.key for a, e in ats)
    if p2:
        s += '<<' + '&'.join(f'{a.key}^{e}' for a, e in p2)
    return s


ZERO = Poly.const(0)
ONE = Poly.const(1)


# -- rendering for reports

def show(x):
    if isinstance(x, Poly):
        parts = []
        for (p2, ats), c in sorted(x.t.items(), key=lambda z: mkey(z[0])):
            f = []
            if c != 1 or (not p2 and not ats):
                f.append(str(c))
            for a, e in ats:
                f.append(show(a) + (f'^{e}' if e != 1 else ''))
            if p2:
                f.append('2^(' + '+'.join((f'{e}*' if e != 1 else '') + show(a) for a, e in p2).replace('+-', '-') + ')')
            parts.append('*'.join(f))
        return ' + '.join(parts).replace('+ -', '- ') or '0'
    if isinstance(x, Atom):
        if x.kind in ('sym', 'phi'):
            return str(x.args[0])
        return x.kind + '(' + ', '.join(show(a) for a in x.args) + ')'
    if isinstance(x, tuple):
        return '(' + ', '.join(show(a) for a in x) + ')'
    return str(x) if not isinstance(x, (str, bytes)) else repr(x)


# -- evaluation of a canonical form at a point (used only to exhibit a witness)

class NoValue(Exception):
    pass


def eval_poly(p, env):
    r = Fraction(0)
    for (p2, ats), c in p.t.items():
        v = c
        for a, e in ats:
            av = eval_atom(a, env)
            if isinstance(av, float):
                av = Fraction(av) if math.isfinite(av) else None
                if av is None:
                    raise NoValue
            if av == 0 and e < 0:
                raise NoValue
            v = v * (av if e == 1 else Fraction(av) ** e)
        if p2:
            e2 = 0
            for a, e in p2:
                e2 += e * eval_atom(a, env)
            if abs(e2) > 3000:
                raise NoValue
            v = v * Fraction(2) ** int(e2)
        r += v
    return r


def linear_in(p, a):
    """p = k + f*a with rational k, f?"""
    for (p2, ats) in p.t:
        if p2 or len(ats) > 1 or (ats and (ats[0][1] != 1 or ats[0][0].key != a.key)):
            return False
    return True


EVAL = {}


def eval_atom(a, env):
    if a.key in env:
        return env[a.key]
    f = EVAL.get(a.kind)
    if f is None:
        raise NoValue(a.key)
    v = f(a.args, env)
    return v


def ev(x, env):
    if isinstance(x, Poly):
        v = eval_poly(x, env)
        return v
    if isinstance(x, Atom):
        return eval_atom(x, env)
    if isinstance(x, (int, float, Fraction, str, bytes, bool)) or x is None:
        return x
    raise NoValue


def evi(x, env):
    v = ev(x, env)
    if isinstance(v, Fraction):
        if v.denominator != 1:
            raise NoValue
        return int(v)
    return v


EVAL['floor'] = lambda a, e: math.floor(ev(a[0], e))
EVAL['bitlen'] = lambda a, e: evi(a[0], e).bit_length()
EVAL['gcd'] = lambda a, e: math.gcd(evi(a[0], e), evi(a[1], e))
EVAL['and'] = lambda a, e: evi(a[0], e) & evi(a[1], e)
EVAL['or'] = lambda a, e: evi(a[0], e) | evi(a[1], e)
EVAL['xor'] = lambda a, e: evi(a[0], e) ^ evi(a[1], e)


def _num(x, e):
    v = ev(x, e)
    if isinstance(v, Fraction):
        return int(v) if v.denominator == 1 else float(v)
    return v


def _safe(f):
    def g(a, e):
        try:
            return f(a, e)
        except (OverflowError, ZeroDivisionError, ValueError, TypeError):
            raise NoValue
    return g


EVAL['fconst'] = lambda a, e: a[0]
EVAL['ffmt'] = _safe(lambda a, e: float(a[1] % _num(a[0], e) if a[1].startswith('%') else format(_num(a[0], e), a[1])))
EVAL['ifmt'] = _safe(lambda a, e: int(a[1] % _num(a[0], e) if a[1].startswith('%') else format(_num(a[0], e), a[1]), 0))
EVAL['ffromint'] = _safe(lambda a, e: float(_num(a[0], e)))
EVAL['fadd'] = _safe(lambda a, e: _num(a[0], e) + _num(a[1], e))
EVAL['fsub'] = _safe(lambda a, e: _num(a[0], e) - _num(a[1], e))
EVAL['fmul'] = _safe(lambda a, e: _num(a[0], e) * _num(a[1], e))
EVAL['fdiv'] = _safe(lambda a, e: _num(a[0], e) / _num(a[1], e))
EVAL['fpow'] = _safe(lambda a, e: _num(a[0], e) ** _num(a[1], e))
EVAL['fneg'] = _safe(lambda a, e: -_num(a[0], e))
EVAL['fsqrt'] = _safe(lambda a, e: math.sqrt(_num(a[0], e)))
EVAL['fint'] = _safe(lambda a, e: int(_num(a[0], e)))
EVAL['fround'] = _safe(lambda a, e: round(_num(a[0], e)))
EVAL['ffloor'] = _safe(lambda a, e: math.floor(_num(a[0], e)))
EVAL['fceil'] = _safe(lambda a, e: math.ceil(_num(a[0], e)))
EVAL['fmod'] = _safe(lambda a, e: _num(a[0], e) % _num(a[1], e))
EVAL['fabs'] = _safe(lambda a, e: abs(_num(a[0], e)))
EVAL['ffloordiv'] = _safe(lambda a, e: _num(a[0], e) // _num(a[1], e))
EVAL['froundn'] = _safe(lambda a, e: round(_num(a[0], e), int(_num(a[1], e))))
EVAL['powint'] = _safe(lambda a, e: evi(a[0], e) ** evi(a[1], e))


def free_atoms(x, out=None):
    """Atoms of a term that have no defining expression."""
    if out is None:
        out = {}
    if isinstance(x, Poly):
        for a in x.atoms():
            free_atoms(a, out)
    elif isinstance(x, Atom):
        if x.kind in EVAL:
            for y in x.args:
                free_atoms(y, out)
        else:
            out[x.key] = x
    elif isinstance(x, tuple):
        for y in x:
            free_atoms(y, out)
    return out


def subst(x, m):
    """Replace atoms (by key) in a term; compound atoms are rebuilt."""
    if isinstance(x, Poly):
        r = ZERO
        for (p2, ats), c in x.t.items():
            v = Poly.const(c)
            for a, e in ats:
                b = subst(a, m)
                b = b if isinstance(b, Poly) else Poly.atom(b)
                if e < 0:
                    i = b.inv()
                    if i is None:
                        i = Poly.atom(a).inv()
                    b, e = i, -e
                for _ in range(e):
                    v = v * b
            if p2:
                lin = ZERO
                for a, e in p2:
                    b = subst(a, m)
                    b = b if isinstance(b, Poly) else Poly.atom(b)
                    lin = lin + b * e
                q = Poly.pow2(lin)
                if q is None:
                    q = Poly({(p2, ()): Fraction(1)})
                v = v * q
            r = r + v
        return r
    if isinstance(x, Atom):
        if x.key in m:
            return m[x.key]
        if not x.args or x.kind in ('sym', 'phi'):
            return x
        args = tuple(subst(a, m) for a in x.args)
        if all(akey(a) == akey(b) for a, b in zip(args, x.args)):
            return x
        return Atom(x.kind, args, x.typ)
    if isinstance(x, tuple):
        return tuple(subst(a, m) for a in x)
    return x
