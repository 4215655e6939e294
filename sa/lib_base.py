"""Models of the Python builtins and of the standard library."""
import ast
import builtins
import math
import re
from fractions import Fraction

from poly import Poly, Atom, ZERO, ONE, INF, eval_poly, NoValue, free_atoms
from facts import Cond, cmp_cond
from values import *
from program import ClassInfo
import lib_num as ln
from lib_num import fterm, mkf, isnum, isint, asn

CONCRETE = (str, bytes, bool, float, type(None))
LNK = ('list', 'deque', 'set', 'frozenset', 'bytearray', 'iter', 'range')


def isobj(v, st):
    return isinstance(v, R) and isinstance(st.heap[v.oid], Obj)


def isstr(v):
    return isinstance(v, S) or (isinstance(v, K) and isinstance(v.v, str))


def isbytes(v):
    return isinstance(v, Y) or (isinstance(v, K) and isinstance(v.v, bytes))


def yparts(v):
    return v.parts if isinstance(v, Y) else (v.v,)


def partlen(p):
    if isinstance(p, bytes):
        return Poly.const(len(p))
    if p[0] == 'b':
        return ONE
    if p[0] == 's':
        return p[3]
    if p[0] == 'vl':
        return Poly.atom(Atom('vllen', (p[1],)))
    if p[0] == 'star':
        return Poly.atom(Atom('starlen', (p[1].key,)))
    return Poly.atom(Atom('len', (p[1],)))


class LibBase:
    def __init__(self, interp):
        self.I = interp

    # ------------------------------------------------------------------ sizes
    def blen(self, y):
        r = ZERO
        for p in yparts(y):
            r = r + partlen(p)
        return r

    def seglen(self, segs):
        r = ZERO
        for g in segs:
            if isinstance(g, El):
                r = r + 1
            elif isinstance(g, Del):
                r = r - 1
            elif isinstance(g, (Sorted, Unord)):
                r = r + self.seglen(g.segs)
            else:
                r = r + Poly.atom(Atom('starlen', (g.key,)))
        return r

    def nonempty(self, st, v):
        r = st.heap[v.oid]
        if isinstance(r, View):
            segs = self.view_segs(st, r)
        else:
            segs = r.segs
        if any(isinstance(g, El) for g in segs) and not any(isinstance(g, Del) for g in segs):
            return [(st, True)]
        if not segs:
            return [(st, False)]
        return self.I.split(st, Cond('ne0', self.seglen(segs)))

    def str_nonempty(self, st, v):
        lo = False
        for p in v.parts:
            if isinstance(p, tuple) and p[0] == 'sym':
                a = p[1]
                if getattr(a, 'kind', None) == 'grp':
                    import regex
                    if not regex.group_may_be_empty(a):
                        return [(st, True)]
        return self.I.split(st, Cond('b', Atom('nonempty', (v.key,), 'bool')))

    def length(self, v, st, node):
        I = self.I
        if isinstance(v, T):
            return [(st, N(len(v.items)))]
        if isinstance(v, K) and isinstance(v.v, (str, bytes)):
            return [(st, N(len(v.v)))]
        if isinstance(v, Y):
            return [(st, N(self.blen(v)))]
        if isinstance(v, S):
            return [(st, N(self.slen(v)))]
        if isinstance(v, R):
            r = st.heap[v.oid]
            if isinstance(r, Lst) and r.kind == 'iter':
                return I.throw(st, 'TypeError', node)
            if isinstance(r, (Lst, Dct)):
                if isinstance(r, Lst) and r.kind == 'set':
                    return [(st, N(self.seglen(r.segs)))] if all(isinstance(g, El) and isinstance(g.v, (K,)) or (isinstance(g, El) and isinstance(g.v, N) and g.v.p.is_const()) for g in r.segs) and len({g.v.key for g in r.segs}) == len(r.segs) else [(st, I.unk('set size', node))]
                if isinstance(r, Dct) and not all(isinstance(g, El) for g in r.segs):
                    return [(st, N(Poly.atom(Atom('len', ('dict:' + '|'.join(g.key for g in r.segs),)))))]
                return [(st, N(self.seglen(r.segs)))]
            if isinstance(r, View):
                return [(st, N(self.seglen(self.view_segs(st, r))))]
            if isinstance(r, Obj):
                m = I.contracts.get(r.cls.qual)
                if m is not None:
                    return m.len(I, st, v, node)
                if r.cls.namedtuple:
                    return [(st, N(len(r.f)))]
                f = r.cls.lookup('__len__')
                if f is not None:
                    return I.call(Bm(v, f), [], {}, st, node)
            return I.throw(st, 'TypeError', node)
        if isinstance(v, U):
            return [(st, v)]
        return I.throw(st, 'TypeError', node)

    def slen(self, v):
        r = ZERO
        for p in v.parts:
            if isinstance(p, str):
                r = r + len(p)
            elif p[0] == 'sym' and getattr(p[1], 'kind', None) == 'grp':
                import regex
                al = regex.group_alphabet(p[1])
                if al is not None and len(al) <= 8:
                    for ch in sorted(al):
                        r = r + Poly.atom(Atom('cnt', (p[1], ch)))
                    continue
                r = r + Poly.atom(Atom('slen', (p[1],)))
            elif p[0] == 'sym':
                r = r + Poly.atom(Atom('slen', (p[1],)))
            else:
                r = r + Poly.atom(Atom('fmtlen', tuple(getattr(x, 'key', x) for x in p)))
        return r

    # ------------------------------------------------------------- iteration
    def segs(self, v, st, node):
        """[(state, tuple of segments)] the elements an iteration over v yields"""
        I = self.I
        if isinstance(v, T):
            return [(st, tuple(El(i) for i in v.items))]
        if isinstance(v, K):
            if isinstance(v.v, str):
                return [(st, tuple(El(K(c)) for c in v.v))]
            if isinstance(v.v, bytes):
                return [(st, tuple(El(N(c)) for c in v.v))]
            return I.throw(st, 'TypeError', node)
        if isinstance(v, Y):
            bs = self.bytelist(v)
            if bs is not None:
                return [(st, tuple(El(N(b)) for b in bs))]
            return [(st, (Star('bytes:' + v.key, [Alt([], [I.unk('byte of a sequence of unknown length', node)])]),))]
        if isinstance(v, S):
            if len(v.parts) == 1 and v.parts[0][0] == 'sym' and getattr(v.parts[0][1], 'kind', None) == 'grp':
                import regex
                g = v.parts[0][1]
                al = regex.group_alphabet(g)
                if al is not None and len(al) <= 8:
                    dom = 'chars:' + g.key
                    return [(st, (Star(dom, [Alt([], [K(c)]) for c in sorted(al)]),))]
            return [(st, (Star('chars:' + v.key, [Alt([], [I.unk('character of an unknown string', node)])]),))]
        if isinstance(v, U):
            return [(st, (Star('unknown', [Alt([], [v])]),))]
        if isinstance(v, R):
            r = st.heap[v.oid]
            if isinstance(r, Lst):
                g = r.segs
                if r.kind == 'iter':
                    st = st.copy()
                    st.wr(v.oid).segs = ()
                if r.kind in ('set', 'frozenset'):
                    if len(g) > 1 or any(not isinstance(x, El) for x in g):
                        g = (Unord(g),)
                return [(st, tuple(g))]
            if isinstance(r, Dct):
                return [(st, tuple(self.dict_keys(st, r)))]
            if isinstance(r, View):
                return [(st, tuple(self.view_segs(st, r)))]
            if isinstance(r, GenRec):
                return self.gen_segs(v, st, node)
            if isinstance(r, Obj):
                m = I.contracts.get(r.cls.qual)
                if m is not None:
                    return m.iter(I, st, v, node)
                if r.cls.namedtuple:
                    return [(st, tuple(El(x) for x in r.f.values()))]
                f = r.cls.lookup('__iter__')
                if f is not None:
                    out = []
                    for s, it in I.call(Bm(v, f), [], {}, st, node):
                        if it.key == v.key:
                            out.append((s, (Star('unknown', [Alt([], [I.unk('iterator object', node)])]),)))
                        else:
                            out += self.segs(it, s, node)
                    return out
                if r.cls.lookup('__getitem__') is not None:
                    return [(st, (Star('unknown', [Alt([], [I.unk('sequence protocol', node)])]),))]
                return I.throw(st, 'TypeError', node)
            if isinstance(r, FileRec):
                return [(st, (Star('unknown', [Alt([], [I.unk('file iteration', node)])]),))]
        if isinstance(v, Cl) and v.info.enum:
            ms = []
            for a in v.info.attrs.values():
                if isinstance(a, R) and isinstance(st.heap.get(a.oid), Obj) and st.heap[a.oid].cls is v.info and all(a.oid != m.oid for m in ms):
                    ms.append(a)
            return [(st, tuple(El(m) for m in ms))]
        return I.throw(st, 'TypeError', node)

    def gen_segs(self, v, st, node):
        I = self.I
        st = st.copy()
        acc = I.new(st, Lst('iter', ()))

        def body(s, e):
            s = s.copy()
            r = s.wr(acc.oid)
            r.segs = r.segs + (El(e),)
            return [('next', s, None)]
        out = []
        before = [len(p) for p in I._pend]
        for flow, s, x in I.run_gen(v, st, body, node):
            if flow == 'next':
                out.append((s, tuple(s.heap[acc.oid].segs)))
            else:
                I._pend[-1].append((flow, s, x))
        if not out and before == [len(p) for p in I._pend]:
            # a generator that never ends: its consumer stops it, and the elements it takes are not known
            s = I.havoc(st, [v], {})
            s.imp = s.imp | {'endless generator'}
            return [(s, (Star('unknown', [Alt([], [I.unk('element of an endless generator', node)])]),))]
        return out

    def fold(self, st, segs, init, step, node, site):
        """left fold of step(state, acc, element) -> [(state, acc)] over the segments"""
        I = self.I
        st = st.copy()
        fid = I.newframe(st, 'builtins', None, None, **{'$comp': True, '$mod': I.stack[-1].mod if I.stack else 'builtins'})
        st.frames[fid] = {**st.frames[fid], '%acc': init}

        def body(s, e):
            r = []
            for s2, v in step(s, s.frames[fid]['%acc'], e):
                s2 = s2.copy()
                s2.frames[fid] = {**s2.frames[fid], '%acc': v}
                r.append(('next', s2, None))
            return r
        out = []
        for flow, s, x in I.iterate(st, segs, body, I.site(node) + '.' + site, node):
            s = s.copy()
            v = s.frames.pop(fid)['%acc']
            out.append((s, v))
        return out

    def map_list(self, st, segs, f, node, site, kind='iter'):
        """list of f(state, element) -> [(state, value or None to drop)]"""
        I = self.I
        st = st.copy()
        acc = I.new(st, Lst(kind, ()))

        def body(s, e):
            r = []
            for s2, v in f(s, e):
                s2 = s2.copy()
                if v is not None:
                    q = s2.wr(acc.oid)
                    q.segs = q.segs + (El(v),)
                r.append(('next', s2, None))
            return r
        return [(s, acc) for flow, s, x in I.iterate(st, segs, body, I.site(node) + '.' + site, node)]

    # ------------------------------------------------------------------ bytes
    def bytelist(self, v):
        """list of byte Polys when every part has a constant length"""
        out = []
        for p in yparts(v):
            if isinstance(p, bytes):
                out += [Poly.const(b) for b in p]
            elif p[0] == 'b':
                out.append(p[1])
            elif p[0] == 's' and p[3].ival() is not None and p[3].ival() <= 64:
                out += [srcbyte(p[1], p[2] + i) for i in range(p[3].ival())]
            else:
                return None
        return out

    def yslice(self, v, lo, hi, st, node):
        """v[lo:hi] for Poly bounds (hi None: to the end) -> [(state, value)]"""
        I = self.I
        total = st.facts.norm(self.blen(v))
        if hi is None:
            hi = total
        lo, hi = st.facts.norm(lo), st.facts.norm(hi)
        # python index semantics
        def clampidx(s, x):
            out = []
            for s1, neg in I.split(s, Cond('lt0', x)):
                y = x + total if neg else x
                for s2, n2 in I.split(s1, Cond('lt0', y)):
                    if n2:
                        out.append((s2, ZERO))
                        continue
                    for s3, big in I.split(s2, Cond('lt0', total - y)):
                        out.append((s3, total if big else y))
            return out
        out = []
        for s, a in clampidx(st, lo):
            for s2, b in clampidx(s, hi):
                for s3, emp in I.split(s2, Cond('le0', b - a)):
                    if emp:
                        out.append((s3, K(b'')))
                    else:
                        out.append((s3, self._cut(v, a, b, s3, node)))
        return out

    def _cut(self, v, a, b, st, node):
        """bytes a..b of v with 0 <= a < b <= len"""
        f = st.facts
        pos = ZERO
        res = []
        for p in yparts(v):
            n = partlen(p)
            s, e = pos, f.norm(pos + n)
            pos = e
            # entirely before or after
            if f.decide(Cond('le0', e - a)) is True:
                continue
            if f.decide(Cond('le0', b - s)) is True:
                break
            left_in = f.decide(Cond('le0', a - s))
            right_in = f.decide(Cond('le0', e - b))
            if left_in is True and right_in is True:
                res.append(p)
                continue
            if left_in is None or right_in is None:
                if not (isinstance(p, tuple) and p[0] == 's' and len(yparts(v)) == 1):
                    return self.I.unk('slice position', node)
            x = s if left_in is True else a
            y = e if right_in is True else b
            if isinstance(p, bytes):
                cx, cy = f.norm(x - s).ival(), f.norm(y - s).ival()
                if cx is None or cy is None:
                    return self.I.unk('slice position', node)
                res.append(p[cx:cy])
            elif p[0] == 's':
                res.append(('s', p[1], f.norm(p[2] + x - s), f.norm(y - x)))
            elif p[0] == 'b':
                res.append(p)
            else:
                return self.I.unk('slice inside a composite piece', node)
        return mkbytes(res)

    def from_bytes(self, v, endian, signed, st, node):
        bs = self.bytelist(v)
        if bs is None:
            return [(st, N(Poly.atom(Atom('intfrom', (v.key, endian)))))]
        if endian == 'little':
            bs = bs[::-1]
        r = ZERO
        for b in bs:
            r = r * 256 + b
        r = st.facts.norm(r)
        if signed and bs:
            out = []
            top = Poly.const(1 << (8 * len(bs) - 1))
            for s, small in self.I.split(st, Cond('lt0', r - top)):
                out.append((s, N(r if small else r - top * 2)))
            return out
        return [(st, N(r))]

    def to_bytes(self, p, n, endian, signed, st, node):
        """n: int"""
        I = self.I
        out = []
        f = st.facts
        p = f.norm(p)
        lo = Poly.const(-(1 << (8 * n - 1)) if signed and n else 0)
        hi = Poly.const((1 << (8 * n - 1)) if signed and n else (1 << (8 * n)))
        for s, low in I.split(st, Cond('lt0', p - lo)):
            if low:
                I.throw(s, 'OverflowError', node)
                continue
            for s2, ok in I.split(s, Cond('lt0', p - hi)):
                if not ok:
                    I.throw(s2, 'OverflowError', node)
                    continue
                f2 = s2.facts
                q = f2.norm(p)
                bs = []
                for i in range(n):
                    a = ln.shr(q, 8 * i, f2)
                    b = ln.shr(q, 8 * (i + 1), f2)
                    bs.append(('b', f2.norm(a - b * 256)))
                if endian == 'big':
                    bs = bs[::-1]
                out.append((s2, mkbytes(bs)))
        return out


def srcbyte(src, pos):
    return Poly.atom(Atom('byte', (src, pos)))
