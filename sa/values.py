"""Abstract values and heap records."""
from poly import Poly, Atom, akey, show, subst, as_poly
from facts import Cond, showc


class V:
    __slots__ = ('key',)

    def __eq__(self, o):
        return isinstance(o, V) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return showv(self)


class K(V):
    """constant other than int"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v
        self.key = f'K{type(v).__name__}:{v!r}'


class N(V):
    """integer (or, inside contract objects, rational)"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = as_poly(p)
        self.key = 'N:' + self.p.key


class F(V):
    """non-constant float"""
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a
        self.key = 'F:' + a.key


class B(V):
    """non-constant bool"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c
        self.key = 'B:' + c.key


class S(V):
    """string: parts are str constants or ('fmt', value, conv, spec) or ('sym', Atom)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        ps = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if ps and isinstance(ps[-1], str):
                    ps[-1] += p
                    continue
            ps.append(p)
        self.parts = tuple(ps)
        self.key = 'S:' + akey(self.parts)


def mkstr(parts):
    s = S(parts)
    if all(isinstance(p, str) for p in s.parts):
        return K(''.join(s.parts))
    return s


class Y(V):
    """bytes: parts are bytes constants, ('b', Poly), ('s', src, start, len) slices of a
    source, ('vl', Poly), ('int', Poly, n, endian), ('star', Star), ('u', text)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        ps = []
        for p in parts:
            if isinstance(p, tuple) and p[0] == 'b':
                c = p[1].ival()
                if c is not None and 0 <= c <= 255:
                    p = bytes([c])
            if isinstance(p, bytes):
                if not p:
                    continue
                if ps and isinstance(ps[-1], bytes):
                    ps[-1] += p
                    continue
            ps.append(p)
        self.parts = tuple(ps)
        self.key = 'Y:' + akey(self.parts)


def mkbytes(parts):
    y = Y(parts)
    if all(isinstance(p, bytes) for p in y.parts):
        return K(b''.join(y.parts))
    return y


class T(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)
        self.key = 'T(' + ','.join(i.key for i in self.items) + ')'


class R(V):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid
        self.key = f'R:{oid}'


class Fn(V):
    __slots__ = ('node', 'mod', 'fid', 'cls', 'kind', 'name', 'defaults', 'kwdefaults', 'deco')

    def __init__(self, node, mod, fid, cls=None, kind='func', name='', defaults=(), kwdefaults=None, deco=()):
        self.node, self.mod, self.fid, self.cls, self.kind, self.name = node, mod, fid, cls, kind, name
        self.defaults, self.kwdefaults = tuple(defaults), dict(kwdefaults or {})
        self.deco = tuple(deco)
        self.key = f'Fn:{mod}.{cls.name if cls else ""}.{name}:{node.lineno}:{node.col_offset}:{fid}:{kind}'


class Cl(V):
    __slots__ = ('info',)

    def __init__(self, info):
        self.info = info
        self.key = 'Cl:' + info.qual


class Bm(V):
    """bound method"""
    __slots__ = ('self_', 'fn')

    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn
        self.key = f'Bm:{self_.key}:{fn.key}'


class Bi(V):
    """builtin / library function, optionally bound to a receiver or carrying data"""
    __slots__ = ('name', 'recv', 'data')

    def __init__(self, name, recv=None, data=()):
        self.name, self.recv, self.data = name, recv, tuple(data)
        self.key = f'Bi:{name}:{recv.key if recv is not None else ""}:{",".join(d.key for d in self.data if isinstance(d, V))}'


class Mo(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name
        self.key = 'Mo:' + name


class U(V):
    """no information"""
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why
        self.key = 'U:' + why


NONE, TRUE, FALSE = K(None), K(True), K(False)


# --------------------------------------------------------------- heap records

class Obj:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f=None):
        self.cls, self.f = cls, dict(f or {})

    def copy(self):
        return Obj(self.cls, self.f)


class El:
    """one known element"""
    __slots__ = ('v', 'key')

    def __init__(self, v):
        self.v = v
        self.key = 'El(' + v.key + ')'

    def __repr__(self):
        return showv(self.v)


class Alt:
    """the elements one iteration contributes, under conditions"""
    __slots__ = ('conds', 'elems', 'key')

    def __init__(self, conds, elems):
        self.conds, self.elems = tuple(conds), tuple(elems)
        self.key = '[' + ','.join(e.key for e in self.elems) + '|' + ','.join(c.key for c in self.conds) + ']'

    def __repr__(self):
        return f'{list(self.elems)} if {list(self.conds)}' if self.conds else f'{list(self.elems)}'


class Star:
    """any number of iterations over domain dom, each contributing one of the alts"""
    __slots__ = ('dom', 'alts', 'key')

    def __init__(self, dom, alts):
        self.dom, self.alts = dom, tuple(alts)
        self.key = f'Star<{dom}>(' + ';'.join(a.key for a in self.alts) + ')'

    def __repr__(self):
        return f'Star<{self.dom}>{list(self.alts)}'


class Sorted:
    """the elements of segs, rearranged in ascending (descending) order of key, stable.
    keys: for every element of every (alt of every) seg its sort key value"""
    __slots__ = ('segs', 'keys', 'rev', 'key')

    def __init__(self, segs, keys, rev=False):
        self.segs, self.keys, self.rev = tuple(segs), tuple(keys), rev
        self.key = f'Sorted({rev};' + ','.join(s.key for s in self.segs) + ';' + ','.join(k.key for k in self.keys) + ')'

    def __repr__(self):
        return f'Sorted{list(self.segs)} by {list(self.keys)}'


class Del:
    """key removed (dictionaries only)"""
    __slots__ = ('v', 'key')

    def __init__(self, v):
        self.v = v
        self.key = 'Del(' + v.key + ')'


class Unord:
    """the elements of segs in an unspecified order (a heap)"""
    __slots__ = ('segs', 'key')

    def __init__(self, segs):
        self.segs = tuple(segs)
        self.key = 'Unord(' + ','.join(s.key for s in self.segs) + ')'

    def __repr__(self):
        return f'Unord{list(self.segs)}'


class Lst:
    """list / deque / set / bytearray / iterator, as a sequence of segments"""
    __slots__ = ('kind', 'segs')

    def __init__(self, kind, segs):
        self.kind, self.segs = kind, tuple(segs)

    def copy(self):
        return Lst(self.kind, self.segs)


class Dct:
    """dict: segments whose elements are T(key, value); default: factory value or None.
    In a 'multi' dict (default list) elements are T(key, element of the list at key)."""
    __slots__ = ('segs', 'default', 'multi', 'kind')

    def __init__(self, segs=(), default=None, multi=False, kind='dict'):
        self.segs, self.default, self.multi, self.kind = tuple(segs), default, multi, kind

    def copy(self):
        return Dct(self.segs, self.default, self.multi, self.kind)


class View:
    """the list stored under a key of a multi dict"""
    __slots__ = ('doid', 'k')

    def __init__(self, doid, k):
        self.doid, self.k = doid, k

    def copy(self):
        return View(self.doid, self.k)


class FileRec:
    """binary file: reading from src at pos, or a log of written segments"""
    __slots__ = ('src', 'pos', 'segs', 'state', 'own')

    def __init__(self, src=None, pos=None, segs=(), state='open', own=False):
        self.src, self.pos, self.segs, self.state, self.own = src, pos, tuple(segs), state, own

    def copy(self):
        return FileRec(self.src, self.pos, self.segs, self.state, self.own)


class GenRec:
    """suspended generator object (function + bound frame)"""
    __slots__ = ('fn', 'fid', 'started')

    def __init__(self, fn, fid, started=False):
        self.fn, self.fid, self.started = fn, fid, started

    def copy(self):
        return GenRec(self.fn, self.fid, self.started)


class ExcRec:
    __slots__ = ('cls', 'args')

    def __init__(self, cls, args):
        self.cls, self.args = cls, tuple(args)

    def copy(self):
        return ExcRec(self.cls, self.args)


# ------------------------------------------------------------------ rendering

def showv(v):
    if isinstance(v, K):
        return repr(v.v)
    if isinstance(v, N):
        return show(v.p)
    if isinstance(v, F):
        return show(v.a)
    if isinstance(v, B):
        return showc(v.c)
    if isinstance(v, S):
        return 'str<' + ''.join(p if isinstance(p, str) else '{' + ' '.join(showx(x) for x in p[1:]) + '}' for p in v.parts) + '>'
    if isinstance(v, Y):
        return 'bytes<' + ' '.join(p.hex() if isinstance(p, bytes) else '{' + ' '.join(showx(x) for x in p) + '}' for p in v.parts) + '>'
    if isinstance(v, T):
        return '(' + ', '.join(showv(i) for i in v.items) + ')'
    if isinstance(v, U):
        return f'?{v.why}'
    return v.key


def showx(x):
    if isinstance(x, V):
        return showv(x)
    return show(x)


# --------------------------------------------------------------- substitution

def subst_v(v, m):
    """rename atoms in a value (not following references)"""
    if not m:
        return v
    if isinstance(v, N):
        return N(subst(v.p, m))
    if isinstance(v, F):
        a = subst(v.a, m)
        return F(a)
    if isinstance(v, B):
        return B(subst_c(v.c, m))
    if isinstance(v, T):
        return T(subst_v(i, m) for i in v.items)
    if isinstance(v, S):
        return S(tuple(p if isinstance(p, str) else tuple(subst_x(x, m) for x in p) for p in v.parts))
    if isinstance(v, Y):
        return Y(tuple(p if isinstance(p, bytes) else tuple(subst_x(x, m) for x in p) for p in v.parts))
    return v


def subst_x(x, m):
    if isinstance(x, V):
        return subst_v(x, m)
    if isinstance(x, (Poly, Atom)):
        return subst(x, m)
    if isinstance(x, Star):
        return subst_seg(x, m)
    return x


def subst_c(c, m):
    return Cond(c.op, *[subst_x(a, m) if isinstance(a, (Poly, Atom)) else a for a in c.args], pos=c.pos)


def subst_seg(s, m):
    if isinstance(s, El):
        return El(subst_v(s.v, m))
    if isinstance(s, Del):
        return Del(subst_v(s.v, m))
    if isinstance(s, Star):
        return Star(s.dom, [Alt([subst_c(c, m) for c in a.conds], [subst_v(e, m) for e in a.elems]) for a in s.alts])
    if isinstance(s, Sorted):
        return Sorted([subst_seg(x, m) for x in s.segs], [subst_v(k, m) for k in s.keys], s.rev)
    if isinstance(s, Unord):
        return Unord([subst_seg(x, m) for x in s.segs])
    return s


class Sg(V):
    """a segment used as a (flattened) element of an Alt"""
    __slots__ = ('seg',)

    def __init__(self, seg):
        self.seg = seg
        self.key = 'Sg:' + seg.key
