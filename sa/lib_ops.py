"""Operators, comparisons, subscripts and formatting."""
from lib_base import *

DUN = {'+': ('__add__', '__radd__'), '-': ('__sub__', '__rsub__'), '*': ('__mul__', '__rmul__'), '/': ('__truediv__', '__rtruediv__'),
       '//': ('__floordiv__', '__rfloordiv__'), '%': ('__mod__', '__rmod__'), '**': ('__pow__', '__rpow__'),
       '<<': ('__lshift__', '__rlshift__'), '>>': ('__rshift__', '__rrshift__'), '&': ('__and__', '__rand__'),
       '|': ('__or__', '__ror__'), '^': ('__xor__', '__rxor__'), '@': ('__matmul__', '__rmatmul__')}
CMP = {'==': ('__eq__', '__eq__'), '!=': ('__ne__', '__ne__'), '<': ('__lt__', '__gt__'), '>': ('__gt__', '__lt__'),
       '<=': ('__le__', '__ge__'), '>=': ('__ge__', '__le__')}
NOTIMPL = 'builtins.NotImplemented'


def is_ni(v):
    return isinstance(v, Bi) and v.name == NOTIMPL


SETOPS = {'&': 'intersection', '-': 'difference', '^': 'symmetric_difference'}


class LibOps(LibBase):
    # -------------------------------------------------------------- operators
    def binop(self, op, a, b, st, node):
        I = self.I
        if isinstance(a, U) or isinstance(b, U):
            if isobj(a, st) or isobj(b, st):
                st = st.copy()
            return [(st, a if isinstance(a, U) else b)]
        if isnum(a) and isnum(b):
            if isint(a) and isint(b):
                return ln.int_op(I, op, asn(a), asn(b), st, node)
            return ln.float_op(I, op, a, b, st, node)
        if op == '%' and isstr(a):
            return self.percent(a, b, st, node)
        if isstr(a) and isstr(b) and op == '+':
            return [(st, mkstr((a.parts if isinstance(a, S) else (a.v,)) + (b.parts if isinstance(b, S) else (b.v,))))]
        if isbytes(a) and isbytes(b) and op == '+':
            return [(st, mkbytes(yparts(a) + yparts(b)))]
        if op == '*':
            for x, y in ((a, b), (b, a)):
                if isint(y):
                    n = asn(y).p.ival()
                    if isinstance(x, T):
                        if n is not None:
                            return [(st, T(x.items * max(n, 0)))]
                        return [(st, I.unk('repetition', node))]
                    if isinstance(x, K) and isinstance(x.v, (str, bytes)):
                        if n is not None and n < 4096:
                            return [(st, K(x.v * n))]
                        return [(st, I.unk('repetition', node))]
                    if isinstance(x, R) and isinstance(st.heap[x.oid], Lst):
                        r = st.heap[x.oid]
                        if n is not None:
                            st = st.copy()
                            return [(st, I.new(st, Lst(r.kind, tuple(r.segs) * max(n, 0))))]
                        return [(st, I.unk('repetition', node))]
        if isinstance(a, T) and isinstance(b, T) and op == '+':
            return [(st, T(a.items + b.items))]
        if isinstance(a, R) and isinstance(b, R):
            ra, rb = st.heap[a.oid], st.heap[b.oid]
            if isinstance(ra, Lst) and isinstance(rb, (Lst, View)):
                if op == '+' and ra.kind == 'list':
                    sb = rb.segs if isinstance(rb, Lst) else self.view_segs(st, rb)
                    st = st.copy()
                    return [(st, I.new(st, Lst('list', tuple(ra.segs) + tuple(sb))))]
                if op == '|' and ra.kind in ('set', 'frozenset'):
                    if isinstance(rb, Lst) and all(isinstance(g, El) for g in ra.segs + rb.segs):
                        return self.set_value('union', ra.kind, ra.segs, rb.segs, st, node)
                    st = st.copy()
                    return [(st, I.new(st, Lst(ra.kind, tuple(ra.segs) + tuple(rb.segs))))]
                if op in SETOPS and ra.kind in ('set', 'frozenset') and rb.kind in ('set', 'frozenset'):
                    return self.set_value(SETOPS[op], ra.kind, ra.segs, rb.segs, st, node)
            if isinstance(ra, Dct) and isinstance(rb, Dct) and op == '|':
                st = st.copy()
                r = I.new(st, ra.copy())
                cur = [st]
                for g in rb.segs:
                    nx = []
                    for s in cur:
                        if isinstance(g, El):
                            nx += self.dict_set(s, r, g.v.items[0], g.v.items[1], node)
                        else:
                            s = s.copy()
                            q = s.wr(r.oid)
                            q.segs = q.segs + (g,)
                            nx.append(s)
                    cur = nx
                return [(s, r) for s in cur]
        if isobj(a, st) or isobj(b, st):
            return self.dunder(DUN[op], a, b, st, node)
        if isinstance(a, (Cl, Bi)) and isinstance(b, (Cl, Bi)) and op == '|':
            return [(st, T((a, b)))]
        if op == '%' and isbytes(a):
            return [(st, I.unk('formatting of bytes', node))]
        for x in (a, b):
            # an operation of a container that is not modelled is not an error of the program
            if isinstance(x, (R, Bi, Cl)) and op in '+*|&^-' and not self._no_operator(op, a, b, st):
                st = st.copy()
                return [(st, I.unk('operator ' + op, node))]
        return I.throw(st, 'TypeError', node)

    def set_op(self, name, a, b, st, node):
        """set algebra of two sequences of known elements; the result is a set (as segments) or a truth value; None: not known"""
        I = self.I
        if not all(isinstance(g, El) for g in tuple(a) + tuple(b)):
            return None

        def inside(vals, others, s):
            st2 = s.copy()
            box = I.new(st2, Lst('list', tuple(others)))
            cur = [(st2, ())]
            for g in vals:
                cur = [(s4, fl + (t,)) for s2, fl in cur for s3, v in self.contains(box, g.v, s2, node) for s4, t in I.truth(v, s3, node)]
            return cur
        out = []
        for s, fl in inside(a, b, st):
            keep = tuple(g for g, t in zip(a, fl) if t)
            drop = tuple(g for g, t in zip(a, fl) if not t)
            if name == 'intersection':
                out.append((s, keep))
            elif name == 'difference':
                out.append((s, drop))
            elif name == 'issubset':
                out.append((s, all(fl)))
            elif name == 'isdisjoint':
                out.append((s, not any(fl)))
            else:
                for s2, gl in inside(b, a, s):
                    rest = tuple(g for g, t in zip(b, gl) if not t)
                    if name == 'union':
                        out.append((s2, tuple(a) + rest))
                    elif name == 'symmetric_difference':
                        out.append((s2, drop + rest))
                    elif name == 'issuperset':
                        out.append((s2, all(gl)))
                    elif name == 'equal':
                        out.append((s2, all(fl) and all(gl)))
                    elif name == 'proper':
                        out.append((s2, all(fl) and not all(gl)))
        return out

    def set_value(self, name, kind, a, b, st, node):
        r = self.set_op(name, a, b, st, node)
        if r is None:
            st = st.copy()
            return [(st, self.I.unk('set.' + name, node))]
        out = []
        for s, v in r:
            if isinstance(v, bool):
                out.append((s, K(v)))
            else:
                s = s.copy()
                out.append((s, self.I.new(s, Lst(kind, v))))
        return out

    def _no_operator(self, op, a, b, st):
        """operand types for which Python surely has no such operator"""
        kinds = [self.typename(x, st) for x in (a, b)]
        if None in kinds:
            return False
        plain = {'int', 'float', 'bool', 'str', 'bytes', 'tuple', 'NoneType', 'list', 'range', 'iterator', 'generator', 'function', 'dict', 'BytesIO'}
        return set(kinds) <= plain and not (set(kinds) == {'dict'}) and not (set(kinds) == {'list', 'int'}) and set(kinds) != {'list'}

    def dunder(self, names, a, b, st, node):
        I = self.I
        out = []
        pend = [st]
        if isobj(a, st):
            r = st.heap[a.oid]
            m = I.contracts.get(r.cls.qual)
            if m is not None:
                x = m.op(I, st, names[0], a, b, node)
                if x is not None:
                    return x
            f = r.cls.lookup(names[0])
            if f is not None and not (isinstance(f, K)):
                pend = []
                for s, v in I.call(Bm(a, f), [b], {}, st, node):
                    if is_ni(v):
                        pend.append(s)
                    else:
                        out.append((s, v))
        for s in pend:
            if isobj(b, s):
                r = s.heap[b.oid]
                m = I.contracts.get(r.cls.qual)
                if m is not None:
                    x = m.op(I, s, names[1], b, a, node)
                    if x is not None:
                        out += x
                        continue
                f = r.cls.lookup(names[1])
                if f is not None:
                    for s2, v in I.call(Bm(b, f), [a], {}, s, node):
                        if is_ni(v):
                            I.throw(s2, 'TypeError', node)
                        else:
                            out.append((s2, v))
                    continue
            I.throw(s, 'TypeError', node)
        return out

    # ------------------------------------------------------------- comparison
    def compare(self, op, a, b, st, node):
        I = self.I
        if op in ('is', 'is not'):
            return self.identity(op, a, b, st, node)
        if op in ('in', 'not in'):
            out = []
            for s, v in self.contains(b, a, st, node):
                if op == 'in':
                    out.append((s, v))
                elif isinstance(v, B):
                    out.append((s, B(v.c.neg())))
                else:
                    out += [(s2, K(not t)) for s2, t in I.truth(v, s, node)]
            return out
        return [self._settle(s, v) for s, v in self._compare(op, a, b, st, node)]

    def _settle(self, s, v):
        if isinstance(v, B):
            d = s.facts.decide(v.c)
            if d is not None:
                return s, K(d)
        return s, v

    def _compare(self, op, a, b, st, node):
        I = self.I
        if isobj(a, st) or isobj(b, st):
            return self.obj_compare(op, a, b, st, node)
        if isinstance(a, U) or isinstance(b, U):
            u = a if isinstance(a, U) else b
            c = Cond('b', Atom('unkcmp', (op, a.key, b.key), 'bool'))
            st = st.copy()
            st.imp = st.imp | {u.why}
            return [(st, B(c))]
        if isinstance(a, B):
            return [x for s, t in I.truth(a, st, node) for x in self._compare(op, K(t), b, s, node)]
        if isinstance(b, B):
            return [x for s, t in I.truth(b, st, node) for x in self._compare(op, a, K(t), s, node)]
        if isnum(a) and isnum(b):
            if isinstance(a, K) and isinstance(b, K):
                return [(st, K(_pycmp(op, a.v, b.v)))]
            return [(st, B(ln.cmp_num(op, a, b)))]
        if isinstance(a, K) and isinstance(b, K):
            try:
                return [(st, K(_pycmp(op, a.v, b.v)))]
            except TypeError:
                return I.throw(st, 'TypeError', node)
        if isinstance(a, T) and isinstance(b, T):
            return self.tuple_compare(op, a.items, b.items, st, node)
        if isbytes(a) and isbytes(b):
            return self.bytes_compare(op, a, b, st, node)
        if isstr(a) and isstr(b):
            if a.key == b.key and op in ('==', '!='):
                return [(st, K(op == '=='))]
            if op in ('==', '!='):
                r = self.str_eq(a, b, st)
                if r is not None:
                    return [(s, K(t == (op == '=='))) for s, t in r]
                x, y = sorted((a, b), key=lambda v: v.key)
                c = Cond('b', Atom('streq', (x, y), 'bool'))
                return [(st, B(c if op == '==' else c.neg()))]
            return [(st, B(Cond('b', Atom('strcmp', (op, a, b), 'bool'))))]
        if isinstance(a, R) and isinstance(b, R):
            if a.oid == b.oid and op in ('==', '!='):
                return [(st, K(op == '=='))]
            ra, rb = st.heap[a.oid], st.heap[b.oid]
            if isinstance(ra, Lst) and isinstance(rb, Lst) and ra.kind == rb.kind == 'list':
                if all(isinstance(g, El) for g in ra.segs + rb.segs):
                    return self.tuple_compare(op, [g.v for g in ra.segs], [g.v for g in rb.segs], st, node)
                return self.list_compare(op, ra.segs, rb.segs, st, node)
            if isinstance(ra, Lst) and isinstance(rb, Lst) and ra.kind in ('set', 'frozenset') and rb.kind in ('set', 'frozenset') \
                    and all(isinstance(g, El) for g in ra.segs + rb.segs):
                x, y = (b, a) if op in ('>', '>=') else (a, b)
                r = self.set_value({'==': 'equal', '!=': 'equal', '<': 'proper', '>': 'proper'}.get(op, 'issubset'), 'set', st.heap[x.oid].segs, st.heap[y.oid].segs, st, node)
                return r if op != '!=' else [(s2, K(not t)) for s, v in r for s2, t in I.truth(v, s, node)]
            if isinstance(ra, Lst) and isinstance(rb, Lst) and op in ('<', '<=', '>', '>=') and not (ra.kind == rb.kind == 'iter'):
                return [(st, I.unk('ordering of containers', node))]
            if op in ('==', '!='):
                # objects compared by identity, or of types never equal to each other
                kinds = {self._family(ra), self._family(rb)}
                if None not in kinds and (len(kinds) == 2 or kinds <= {'iter', 'file'}):
                    return [(st, K(op == '!='))]
                u = I.unk('comparison of containers', node)
                st = st.copy()
                st.imp = st.imp | {u.why}
                return [(st, B(Cond('b', Atom('unkcmp', (op, a.key, b.key), 'bool'))))]
        if op == '==':
            return [(st, FALSE)]
        if op == '!=':
            return [(st, TRUE)]
        return I.throw(st, 'TypeError', node)

    @staticmethod
    def _family(r):
        if isinstance(r, Lst):
            return r.kind if r.kind in ('list', 'range', 'iter') else None
        if isinstance(r, GenRec):
            return 'iter'
        if isinstance(r, FileRec):
            return 'file'
        if isinstance(r, Dct):
            return 'dict'
        return None

    def list_compare(self, op, sa, sb, st, node):
        """equality of two sequences given as segments: decided by a summary hook or opaque"""
        I = self.I
        h = I.hooks.get('$listcmp')
        if h is not None:
            r = h(I, op, sa, sb, st, node)
            if r is not None:
                return r
        if op in ('==', '!='):
            c = Cond('b', Atom('seqeq', tuple(sorted(('|'.join(I.segkey(st, g) for g in sa), '|'.join(I.segkey(st, g) for g in sb)))), 'bool'))
            return [(st, B(c if op == '==' else c.neg()))]
        u = I.unk('ordering of lists', node)
        return [(st, u)]

    def str_eq(self, a, b, st):
        """[(state, equal)] when one side is a finite-language group and the other a constant"""
        if isinstance(a, K):
            a, b = b, a
        if isinstance(b, K) and isinstance(a, S):
            if len(a.parts) == 1 and a.parts[0][0] == 'sym':
                g = a.parts[0][1]
                cur = st.facts.bools.get('strval:' + g.key)
                if cur is not None:
                    return [(st, cur == b.v)]
            consts = [p for p in a.parts if isinstance(p, str)]
            if consts and isinstance(a.parts[0], str) and not b.v.startswith(a.parts[0]):
                return [(st, False)]
            if consts and isinstance(a.parts[-1], str) and not b.v.endswith(a.parts[-1]):
                return [(st, False)]
        return None

    def bytes_compare(self, op, a, b, st, node):
        I = self.I
        if a.key == b.key and op in ('==', '!='):
            return [(st, K(op == '=='))]
        if op not in ('==', '!='):
            xa, xb = self.bytelist(self.norm_bytes(a, st)), self.bytelist(self.norm_bytes(b, st))
            if xa is None or xb is None:
                return [(st, I.unk('ordering of bytes', node))]
            return self.tuple_compare(op, [N(x) for x in xa], [N(x) for x in xb], st, node)
        la, lb = self.blen(a), self.blen(b)
        out = []
        for s, same in I.split(st, Cond('eq0', la - lb)):
            if not same:
                out.append((s, K(op == '!=')))
                continue
            xa = self.bytelist(self.norm_bytes(a, s))
            xb = self.bytelist(self.norm_bytes(b, s))
            if xa is None or xb is None or len(xa) != len(xb):
                c = Cond('b', Atom('byteseq', tuple(sorted((a.key, b.key))), 'bool'))
                out.append((s, B(c if op == '==' else c.neg())))
                continue
            cur = [s]
            for p, q in zip(xa, xb):
                nx = []
                for s2 in cur:
                    for s3, e in I.split(s2, Cond('eq0', p - q)):
                        if e:
                            nx.append(s3)
                        else:
                            out.append((s3, K(op == '!=')))
                cur = nx
            out += [(s2, K(op == '==')) for s2 in cur]
        return out

    def norm_bytes(self, y, st):
        f = st.facts
        ps = []
        for p in yparts(y):
            if isinstance(p, bytes):
                ps.append(p)
            elif p[0] == 's':
                ps.append(('s', p[1], f.norm(p[2]), f.norm(p[3])))
            elif p[0] == 'b':
                ps.append(('b', f.norm(p[1])))
            else:
                ps.append(p)
        return mkbytes(ps)

    def tuple_compare(self, op, xs, ys, st, node):
        I = self.I
        if op in ('==', '!='):
            if len(xs) != len(ys):
                return [(st, K(op == '!='))]
            out, cur = [], [st]
            for x, y in zip(xs, ys):
                nx = []
                for s in cur:
                    if x.key == y.key and not isinstance(x, (U, F)):
                        nx.append(s)
                        continue
                    for s2, v in self.compare('==', x, y, s, node):
                        for s3, t in I.truth(v, s2, node):
                            if t:
                                nx.append(s3)
                            else:
                                out.append((s3, K(op == '!=')))
                cur = nx
            return out + [(s, K(op == '==')) for s in cur]
        out, cur = [], [st]
        for x, y in zip(xs, ys):
            nx = []
            for s in cur:
                for s2, v in self.compare('==', x, y, s, node):
                    for s3, t in I.truth(v, s2, node):
                        if t:
                            nx.append(s3)
                        else:
                            out += self.compare(op, x, y, s3, node)
            cur = nx
        r = K(_pycmp(op, len(xs), len(ys)))
        return out + [(s, r) for s in cur]

    def obj_compare(self, op, a, b, st, node):
        I = self.I
        l, r = CMP[op]
        out, pend = [], []
        first = True

        def attempt(x, y, name, s):
            """[(state, value or None)]"""
            if not isobj(x, s):
                return [(s, None)]
            rec = s.heap[x.oid]
            m = I.contracts.get(rec.cls.qual)
            if m is not None:
                v = m.op(I, s, name, x, y, node)
                if v is not None:
                    return v
            f = rec.cls.lookup(name)
            if f is None and name == '__ne__':
                e = attempt(x, y, '__eq__', s)
                res = []
                for s2, v in e:
                    if v is None:
                        res.append((s2, None))
                    elif isinstance(v, B):
                        res.append((s2, B(v.c.neg())))
                    else:
                        res += [(s3, K(not t)) for s3, t in I.truth(v, s2, node)]
                return res
            if f is None and rec.cls.total_ordering and name in ('__lt__', '__le__', '__gt__', '__ge__'):
                return self.total_ordering(x, y, name, s, node)
            if f is None and rec.cls.namedtuple:
                if isobj(y, s) and s.heap[y.oid].cls.namedtuple:
                    o = {v[0]: k for k, v in CMP.items()}[name]
                    return self.tuple_compare(o, list(rec.f.values()), list(s.heap[y.oid].f.values()), s, node)
                return [(s, None)]
            dc = rec.cls.dataclass
            if f is None and dc is not None:
                if isobj(y, s) and s.heap[y.oid].cls is rec.cls:
                    o = {v[0]: k for k, v in CMP.items()}[name]
                    if (name == '__eq__' and dc.get('eq', True) is not False) or (dc.get('order') and name not in ('__eq__',)):
                        return self.tuple_compare(o, list(rec.f.values()), list(s.heap[y.oid].f.values()), s, node)
                return [(s, None)]
            if f is None:
                return [(s, None)]
            res = []
            for s2, v in I.call(Bm(x, f), [y], {}, s, node):
                res.append((s2, None if is_ni(v) else v))
            return res
        for s, v in attempt(a, b, l, st):
            if v is not None:
                out.append((s, v))
            else:
                pend.append(s)
        for s in pend:
            for s2, v in attempt(b, a, r, s):
                if v is not None:
                    out.append((s2, v))
                elif op in ('==', '!='):
                    out.append((s2, K((a.key == b.key) == (op == '=='))))
                else:
                    I.throw(s2, 'TypeError', node)
        return out

    def total_ordering(self, x, y, name, st, node):
        I = self.I
        cls = st.heap[x.oid].cls
        root = next((n for n in ('__lt__', '__le__', '__gt__', '__ge__') if cls.lookup(n) is not None), None)
        if root is None:
            return [(st, None)]
        # as functools.total_ordering derives them
        table = {'__lt__': {'__gt__': ('not', 'and', 'ne'), '__le__': ('', 'or', 'eq'), '__ge__': ('not', '', '')},
                 '__le__': {'__ge__': ('not', 'or', 'eq'), '__lt__': ('', 'and', 'ne'), '__gt__': ('not', '', '')},
                 '__gt__': {'__lt__': ('not', 'and', 'ne'), '__ge__': ('', 'or', 'eq'), '__le__': ('not', '', '')},
                 '__ge__': {'__le__': ('not', 'or', 'eq'), '__gt__': ('', 'and', 'ne'), '__lt__': ('not', '', '')}}
        neg, conj, eq = table[root][name]
        out = []
        for s, v in I.call(Bm(x, cls.lookup(root)), [y], {}, st, node):
            for s2, t in I.truth(v, s, node):
                t = (not t) if neg else t
                if not conj or (conj == 'and' and not t) or (conj == 'or' and t):
                    out.append((s2, K(t)))
                    continue
                for s3, v2 in self.compare('==' if eq == 'eq' else '!=', x, y, s2, node):
                    out.append((s3, v2))
        return out

    def identity(self, op, a, b, st, node):
        I = self.I
        pos = op == 'is'
        if isinstance(a, U) or isinstance(b, U):
            u = a if isinstance(a, U) else b
            return [(s, K(t == pos)) for s, t in I.truth(U('is ' + u.why), st, node)]
        if isinstance(a, B) or isinstance(b, B):
            if isinstance(b, B):
                a, b = b, a
            out = []
            for s, t in I.truth(a, st, node):
                out.append((s, K((K(t).key == b.key) == pos)))
            return out
        if isinstance(a, (K, R, Fn, Cl, Bi, Mo)) or isinstance(b, (K, R, Fn, Cl, Bi, Mo)):
            return [(st, K((a.key == b.key) == pos))]
        if type(a) is not type(b):
            return [(st, K(not pos))]
        u = I.unk('identity of values', node)
        return [(s, K(t == pos)) for s, t in I.truth(u, st, node)]

    def contains(self, c, x, st, node):
        I = self.I
        if isinstance(c, U):
            return [(st, c)]
        if isobj(c, st):
            rec = st.heap[c.oid]
            f = rec.cls.lookup('__contains__')
            if f is not None:
                out = []
                for s, v in I.call(Bm(c, f), [x], {}, st, node):
                    out += [(s2, K(t)) for s2, t in I.truth(v, s, node)]
                return out
        if isinstance(c, R) and isinstance(st.heap[c.oid], Dct):
            return [(s, K(v is not None)) for s, v in self.dict_get(st, c, x, node)]
        if isinstance(c, R) and isinstance(st.heap[c.oid], Lst) and st.heap[c.oid].kind == 'range' and isint(x):
            segs = st.heap[c.oid].segs
            vals = [g.v.p.ival() for g in segs if isinstance(g, El) and isinstance(g.v, N)]
            if segs and len(vals) == len(segs) and None not in vals:
                step = vals[1] - vals[0] if len(vals) > 1 else 1
                p = asn(x).p
                if step == 1:
                    out = []
                    for s, lo in I.split(st, cmp_cond('>=', p, Poly.const(vals[0]))):
                        if not lo:
                            out.append((s, FALSE))
                        else:
                            out.append(self._settle(s, B(cmp_cond('<=', p, Poly.const(vals[-1])))))
                    return out
            if not segs:
                return [(st, FALSE)]
            if len(segs) == 1 and isinstance(segs[0], Star) and len(segs[0].alts) == 1 and len(segs[0].alts[0].conds) == 2:
                low, high = segs[0].alts[0].conds
                e = segs[0].alts[0].elems[0]
                if low.op == 'le0' and high.op == 'lt0' and isinstance(e, N) and segs[0].dom.count(':') == 2 and segs[0].dom.startswith('range:'):
                    lo, hi, p = low.args[0] + e.p, e.p - high.args[0], asn(x).p
                    out = []
                    for s, below in I.split(st, cmp_cond('<', p, lo)):
                        out.append((s, FALSE) if below else self._settle(s, B(cmp_cond('<', p, hi))))
                    return out
        if isstr(c) and isstr(x):
            if isinstance(c, K) and isinstance(x, K):
                return [(st, K(x.v in c.v))]
            return [(st, B(Cond('b', Atom('strin', (x, c), 'bool'))))]
        if isbytes(c) and isbytes(x):
            if isinstance(c, K) and isinstance(x, K):
                return [(st, K(x.v in c.v))]
            return [(st, I.unk('bytes in bytes', node))]
        out = []
        for s, segs in self.segs(c, st, node):
            segs = list(segs)
            if len(segs) == 1 and isinstance(segs[0], Unord) and all(isinstance(g, El) for g in segs[0].segs):
                segs = list(segs[0].segs)
            if all(isinstance(g, El) for g in segs):
                # constants tested against one finite atom: decide by enumeration
                r = self._member_finite(x, [g.v for g in segs], s)
                if r is not None:
                    out += r
                    continue
                cur = [s]
                for g in segs:
                    nx = []
                    for s2 in cur:
                        for s3, v in self.compare('==', x, g.v, s2, node):
                            for s4, t in I.truth(v, s3, node):
                                if t:
                                    out.append((s4, TRUE))
                                else:
                                    nx.append(s4)
                    cur = nx
                out += [(s2, FALSE) for s2 in cur]
            else:
                u = I.unk('membership in a sequence of unknown length', node)
                out.append((s, u))
        return out

    def _member_finite(self, x, vals, st):
        if not isinstance(x, N) or not all(isinstance(v, N) and v.p.ival() is not None for v in vals):
            return None
        ids = {v.p.ival() for v in vals}
        p = st.facts.norm(x.p)
        one = st.facts._single_finite(p)
        if one is None:
            return None
        a, dom = one
        try:
            yes = [v for v in dom if int(eval_poly(p, {a.key: v})) in ids]
        except NoValue:
            return None
        no = [v for v in dom if v not in yes]
        out = []
        for vs, t in ((yes, True), (no, False)):
            if vs:
                out.append((self.restrict(st, a, vs), K(t)))
        return out

    def restrict(self, st, a, vals):
        """state with the finite atom a limited to vals"""
        st = st.copy()
        f = st.facts.copy()
        f.fin[a.key] = frozenset(vals)
        f.log = f.log + (Cond('b', Atom('infset', (a, tuple(vals)), 'bool')),)
        f.bools[f.log[-1].args[0].key] = True
        if len(vals) == 1 and a.key not in f.rw:
            f.rw[a.key] = Poly.const(vals[0])
        st.facts = f
        return st

    # ------------------------------------------------------------ subscripts
    def getitem(self, v, i, st, node):
        I = self.I
        if isinstance(v, U):
            return [(st, v)]
        if isinstance(i, Bi) and i.name == 'sliceobj':
            i = ('slice', i.data)
        if isinstance(i, tuple):
            return self.getslice(v, i[1], st, node)
        if isinstance(i, U) and not isobj(v, st):
            return [(st, i)]
        if isinstance(i, B):
            return [x for s, t in I.truth(i, st, node) for x in self.getitem(v, N(int(t)), s, node)]
        if isinstance(i, K) and isinstance(i.v, bool):
            i = N(int(i.v))
        if isobj(i, st) and not isobj(v, st) and not (isinstance(v, R) and isinstance(st.heap[v.oid], Dct)):
            f = st.heap[i.oid].cls.lookup('__index__')
            if isinstance(f, Fn):
                return [x for s, k in I.call(Bm(i, f), [], {}, st, node) for x in self.getitem(v, k, s, node)]
        if isinstance(v, T):
            return self.index_list(list(v.items), i, st, node)
        if isinstance(v, K) and isinstance(v.v, (str, bytes)):
            items = [K(c) for c in v.v] if isinstance(v.v, str) else [N(c) for c in v.v]
            return self.index_list(items, i, st, node)
        if isinstance(v, Y):
            if not isint(i):
                return I.throw(st, 'TypeError', node)
            p = asn(i).p
            out = []
            n = self.blen(v)
            for s, neg in I.split(st, Cond('lt0', p)):
                q = p + n if neg else p
                for s2, bad in (I.split(s, Cond('lt0', q)) if neg else [(s, False)]):
                    if bad:
                        I.throw(s2, 'IndexError', node)
                        continue
                    for s3, ok in I.split(s2, Cond('lt0', q - n)):
                        if not ok:
                            I.throw(s3, 'IndexError', node)
                            continue
                        y = self._cut(v, s3.facts.norm(q), s3.facts.norm(q + 1), s3, node)
                        if isinstance(y, U):
                            out.append((s3, y))
                        else:
                            out += self.from_bytes(y, 'big', False, s3, node)
            return out
        if isinstance(v, S):
            return [(st, I.unk('character of an unknown string', node))]
        if isinstance(v, R):
            r = st.heap[v.oid]
            if isinstance(r, Dct):
                out = []
                for s, x in self.dict_get(st, v, i, node, want=True):
                    if x is not None:
                        out.append((s, x))
                    elif r.default is not None:
                        out += self.dict_default(s, v, i, node)
                    else:
                        I.throw(s, 'KeyError', node)
                return out
            if isinstance(r, Lst) and r.kind not in ('iter', 'set', 'dictview'):
                if all(isinstance(g, El) for g in r.segs):
                    return self.index_list([g.v for g in r.segs], i, st, node)
                return self.index_segs(r.segs, i, st, node)
            if isinstance(r, View):
                return self.index_segs(self.view_segs(st, r), i, st, node)
            if isinstance(r, Obj):
                if r.cls.namedtuple:
                    return self.index_list(list(r.f.values()), i, st, node)
                f = r.cls.lookup('__getitem__')
                if f is not None:
                    return I.call(Bm(v, f), [i], {}, st, node)
        if isinstance(v, Bi) and v.name == 're.match':
            return self.match_group(v, i, st, node)
        if isinstance(v, Cl) and v.info.enum and isinstance(i, K):
            a = v.info.attrs.get(i.v)
            if isinstance(a, R) and isinstance(st.heap.get(a.oid), Obj) and st.heap[a.oid].cls is v.info:
                return [(st, a)]
            return I.throw(st, 'KeyError', node)
        if isinstance(v, Cl):
            f = v.info.lookup('__class_getitem__')
            if isinstance(f, Fn):
                return I.call(Bm(v, f), [i], {}, st, node)
        if isinstance(v, (Cl, Bi)):
            return [(st, I.unk('subscript of a class', node))]
        return I.throw(st, 'TypeError', node)

    def index_segs(self, segs, i, st, node):
        I = self.I
        if isint(i):
            c = asn(i).p.ival()
            if c is not None and c < 0 and len(segs) >= -c and all(isinstance(g, El) for g in segs[c:]):
                return [(st, segs[c].v)]
            if c is not None and c >= 0 and len(segs) > c and all(isinstance(g, El) for g in segs[:c + 1]):
                return [(st, segs[c].v)]
        st = st.copy()
        return [(st, I.unk('index into a sequence of unknown length', node))]

    def index_list(self, items, i, st, node):
        I = self.I
        if not isint(i):
            return I.throw(st, 'TypeError', node)
        p = st.facts.norm(asn(i).p)
        c = p.ival()
        n = len(items)
        if c is not None:
            if -n <= c < n:
                return [(st, items[c])]
            return I.throw(st, 'IndexError', node)
        one = st.facts._single_finite(p)
        if one is not None:
            a, dom = one
            groups = {}
            try:
                for v in dom:
                    j = int(eval_poly(p, {a.key: v}))
                    k = items[j].key if -n <= j < n else None
                    groups.setdefault(k, (items[j] if k is not None else None, []))[1].append(v)
            except NoValue:
                groups = None
            if groups is not None and len(groups) <= 64:
                out = []
                for k, (x, vs) in groups.items():
                    s = self.restrict(st, a, vs) if len(groups) > 1 else st
                    if k is None:
                        I.throw(s, 'IndexError', node)
                    else:
                        out.append((s, x))
                return out
        lo, hi = st.facts.bounds(p)
        if lo < -n or hi >= n:
            for s, bad in I.split(st, Cond('lt0', p + n)):
                if bad:
                    I.throw(s, 'IndexError', node)
            for s, ok in I.split(st, Cond('lt0', p - n)):
                if not ok:
                    I.throw(s, 'IndexError', node)
        if n and all(x.key == items[0].key for x in items):
            return [(st, items[0])]
        if n <= 16:
            out = []
            cur = [st]
            for j in list(range(n)):
                nx = []
                for s in cur:
                    for s2, e in I.split(s, Cond('eq0', p - j)):
                        if e:
                            out.append((s2, items[j]))
                        else:
                            nx.append(s2)
                cur = nx
            return out
        return [(st, I.unk('index', node))]

    def getslice(self, v, lhs, st, node):
        I = self.I
        lo, hi, step = lhs
        if any(isinstance(x, U) for x in lhs):
            return [(st, I.unk('slice', node))]

        def cv(x):
            if isinstance(x, K) and x.v is None:
                return None
            return asn(x).p.ival() if isint(x) else 'sym'
        a, b, c = cv(lo), cv(hi), cv(step)
        const = 'sym' not in (a, b, c) and all(not (isint(x) and asn(x).p.ival() is None) for x in lhs)
        if isinstance(v, K) and isinstance(v.v, (str, bytes)) and const:
            return [(st, K(v.v[a:b:c]))]
        if isinstance(v, T) and const:
            return [(st, T(v.items[slice(a, b, c)]))]
        if isbytes(v):
            if c not in (None, 1):
                bs = self.bytelist(v)
                if bs is not None and const:
                    return [(st, mkbytes([('b', x) for x in bs[slice(a, b, c)]]))]
                return [(st, I.unk('extended slice', node))]
            l = ZERO if a is None and isinstance(lo, K) else asn(lo).p
            h = None if (isinstance(hi, K) and hi.v is None) else asn(hi).p
            return self.yslice(v, l, h, st, node)
        if isinstance(v, R):
            r = st.heap[v.oid]
            if isinstance(r, Lst) and r.kind in ('iter', 'set', 'dictview'):
                return I.throw(st, 'TypeError', node)
            if isinstance(r, Lst):
                st = st.copy()
                if all(isinstance(g, El) for g in r.segs) and const:
                    return [(st, I.new(st, Lst(r.kind if r.kind != 'range' else 'list', r.segs[slice(a, b, c)])))]
                if const and a in (None, 0) and b is None and c in (None, 1):
                    return [(st, I.new(st, Lst(r.kind, r.segs)))]
                # [k:] when the first k segments are single elements; [:-k] likewise
                if const and c in (None, 1) and b is None and a is not None and 0 <= a <= len(r.segs) and all(isinstance(g, El) for g in r.segs[:a]):
                    return [(st, I.new(st, Lst(r.kind, r.segs[a:])))]
                if const and c in (None, 1) and a in (None, 0) and b is not None and b < 0 and len(r.segs) >= -b and all(isinstance(g, El) for g in r.segs[b:]):
                    return [(st, I.new(st, Lst(r.kind, r.segs[:b])))]
                return [(st, I.unk('slice of a sequence of unknown length', node))]
        return [(st, I.unk('slice', node))]

    def setitem(self, v, i, x, st, node):
        """-> [state]"""
        I = self.I
        if isinstance(i, Bi) and i.name == 'sliceobj':
            i = ('slice', i.data)
        if isinstance(v, U):
            return [st]
        if isinstance(v, R):
            r = st.heap[v.oid]
            self.note_write(v, st, node)
            if isinstance(r, Dct):
                return self.dict_set(st, v, i, x, node)
            if isinstance(r, Lst):
                st = st.copy()
                if isinstance(i, tuple):
                    lo, hi, step = i[1]
                    if all(isinstance(k, K) and k.v is None for k in i[1]):
                        out = []
                        for s, segs in self.segs(x, st, node):
                            s = s.copy()
                            s.wr(v.oid).segs = tuple(segs)
                            out.append(s)
                        return out
                    return self.slice_assign(st, v, i[1], x, node)
                if r.kind == 'bytearray' and not all(isinstance(g, El) and isint(g.v) for g in r.segs):
                    st.imp = st.imp | {'element assignment in a bytearray'}
                    st.wr(v.oid).segs = (Star('unknown', [Alt([], [I.unk('element assignment', node)])]),)
                    return [st]
                c = asn(i).p.ival() if isint(i) else None
                n = len(r.segs)
                if c is not None and all(isinstance(g, El) for g in r.segs):
                    if not -n <= c < n:
                        I.throw(st, 'IndexError', node)
                        return []
                    segs = list(r.segs)
                    segs[c] = El(x)
                    st.wr(v.oid).segs = tuple(segs)
                    return [st]
                if c is not None and c < 0 and n >= -c and all(isinstance(g, El) for g in r.segs[c:]):
                    segs = list(r.segs)
                    segs[c] = El(x)
                    st.wr(v.oid).segs = tuple(segs)
                    return [st]
                st.imp = st.imp | {'element assignment at an unknown index'}
                st.wr(v.oid).segs = (Star('unknown', [Alt([], [I.unk('element assignment', node)])]),)
                return [st]
            if isinstance(r, Obj):
                f = r.cls.lookup('__setitem__')
                if f is not None:
                    return [s for s, _ in I.call(Bm(v, f), [i, x], {}, st, node)]
        I.throw(st, 'TypeError', node)
        return []

    def slice_assign(self, st, v, bounds, x, node):
        """replace a slice of a list by the elements of x (None: delete it)"""
        I = self.I
        r = st.heap[v.oid]
        out = []
        for s, new in ([(st, ())] if x is None else self.segs(x, st, node)):
            b = [None if isinstance(k, K) and k.v is None else asn(k).p.ival() if isint(k) else '?' for k in bounds]
            if any(isinstance(k, K) and isinstance(k.v, bool) for k in bounds):
                b = ['?']
            plain = all(isinstance(g, El) and (r.kind != 'bytearray' or isint(g.v)) for g in r.segs)
            if r.kind == 'bytearray':
                new = [e for g in new for e in (self._ba_segs(g.v) if isinstance(g, El) and isbytes(g.v) else [g])]
            s = s.copy()
            segs = list(r.segs)
            if '?' not in b and plain and (b[2] is None or b[2] == 1 or x is None or all(isinstance(g, El) for g in new)):
                try:
                    if x is None:
                        del segs[slice(*b)]
                    else:
                        segs[slice(*b)] = list(new)
                except ValueError:
                    I.throw(s, 'ValueError', node)
                    continue
                s.wr(v.oid).segs = tuple(segs)
            elif '?' not in b and b[0] in (0, None) and b[1] == 0 and b[2] in (1, None):
                s.wr(v.oid).segs = tuple(new) + r.segs
            else:
                s.wr(v.oid).segs = (Star('unknown', [Alt([], [I.unk('slice assignment', node)])]),)
                s.imp = s.imp | {'slice assignment'}
            out.append(s)
        return out

    def delitem(self, v, i, st, node):
        I = self.I
        if isinstance(i, Bi) and i.name == 'sliceobj':
            i = ('slice', i.data)
        if isinstance(v, U):
            return [st]
        if isinstance(v, R):
            r = st.heap[v.oid]
            self.note_write(v, st, node)
            if isinstance(r, Dct):
                out = []
                for s, x in self.dict_get(st, v, i, node):
                    if x is None:
                        I.throw(s, 'KeyError', node)
                    else:
                        out += self.dict_del(s, v, i, node)
                return out
            if isinstance(r, Lst):
                st = st.copy()
                if isinstance(i, tuple):
                    if all(isinstance(k, K) and k.v is None for k in i[1]):
                        st.wr(v.oid).segs = ()
                        return [st]
                    return self.slice_assign(st, v, i[1], None, node)
                if r.kind == 'bytearray' and not all(isinstance(g, El) and isint(g.v) for g in r.segs):
                    st.imp = st.imp | {'element deletion in a bytearray'}
                    st.wr(v.oid).segs = (Star('unknown', [Alt([], [I.unk('element deletion', node)])]),)
                    return [st]
                c = asn(i).p.ival() if isint(i) else None
                if c is not None and all(isinstance(g, El) for g in r.segs):
                    if not -len(r.segs) <= c < len(r.segs):
                        I.throw(st, 'IndexError', node)
                        return []
                    segs = list(r.segs)
                    del segs[c]
                    st.wr(v.oid).segs = tuple(segs)
                    return [st]
                st.wr(v.oid).segs = (Star('unknown', [Alt([], [I.unk('element deletion', node)])]),)
                return [st]
        I.throw(st, 'TypeError', node)
        return []

    def note_write(self, v, st, node):
        I = self.I
        if I.frozen_import and v.oid in I.shared:
            I.mutated.append((v.oid, type(st.heap[v.oid]).__name__, I.loc(node)))
        h = I.hooks.get('$write')
        if h is not None:
            h(I, v, st, node)

    # ------------------------------------------------------------- formatting
    def fmt(self, st, v, conv, spec, node):
        """[(state, parts)] of f'{v!conv:spec}'"""
        I = self.I
        if conv == 114 or conv == 97:
            out = []
            for s, x in self.repr_(v, st, node):
                out += self._fmtstr(s, x, spec)
            return out
        if conv == 115:
            out = []
            for s, x in self.str_(v, st, node):
                out += self._fmtstr(s, x, spec)
            return out
        if isstr(v):
            if spec in ('', 's'):
                return [(st, list(v.parts) if isinstance(v, S) else [v.v])]
            if isinstance(v, K):
                try:
                    return [(st, [format(v.v, spec)])]
                except ValueError:
                    I.throw(st, 'ValueError', node)
                    return []
            return self._fmtstr(st, v, spec)
        if isinstance(v, B):
            return [x for s, t in I.truth(v, st, node) for x in self.fmt(s, K(t), conv, spec, node)]
        if isinstance(v, N):
            if spec in ('', 'd'):
                p = st.facts.norm(v.p)
                c = p.ival()
                return [(st, [str(c)] if c is not None else [('fmt', N(p), '')])]
            c = v.p.ival()
            try:
                if c is not None:
                    return [(st, [format(c, spec)])]
                format(7, spec)
            except ValueError:
                I.throw(st, 'ValueError', node)
                return []
            return [(st, [('fmt', v, spec)])]
        if isinstance(v, K):
            try:
                return [(st, [format(v.v, spec)])]
            except (ValueError, TypeError):
                I.throw(st, 'ValueError' if isinstance(v.v, float) else 'TypeError', node)
                return []
        if isinstance(v, F):
            try:
                format(0.5, spec)
            except ValueError:
                I.throw(st, 'ValueError', node)
                return []
            return [(st, [('fmt', v, spec)])]
        if isinstance(v, U):
            return [(st, [('fmt', v, spec)])]
        if isobj(v, st):
            f = st.heap[v.oid].cls.lookup('__format__')
            if f is not None:
                out = []
                for s, x in I.call(Bm(v, f), [K(spec)], {}, st, node):
                    out += self._fmtstr(s, x, '')
                return out
            if spec:
                I.throw(st, 'TypeError', node)
                return []
        out = []
        for s, x in self.str_(v, st, node):
            out += self._fmtstr(s, x, spec)
        return out

    def _fmtstr(self, s, x, spec):
        if isinstance(x, K) and isinstance(x.v, str):
            return [(s, [format(x.v, spec)])]
        if isinstance(x, S) and spec in ('', 's'):
            return [(s, list(x.parts))]
        return [(s, [('fmt', x, spec)])]

    def str_(self, v, st, node):
        I = self.I
        if isstr(v):
            return [(st, v)]
        if isobj(v, st):
            r = st.heap[v.oid]
            for n in ('__str__', '__repr__'):
                f = r.cls.lookup(n)
                if f is not None:
                    return I.call(Bm(v, f), [], {}, st, node)
        if isinstance(v, R) and isinstance(st.heap[v.oid], ExcRec):
            r = st.heap[v.oid]
            f = r.cls.lookup('__str__') if isinstance(r.cls, ClassInfo) else None
            if isinstance(f, Fn):
                return I.call(Bm(v, f), [], {}, st, node)
            if f is None and not (isinstance(r.cls, ClassInfo) and r.cls.lookup('__init__')) and r.cls != 'KeyError' and len(r.args) < 2:
                return self.str_(r.args[0], st, node) if r.args else [(st, mkstr([('fmt', v, 'repr')]))]
            return [(st, mkstr([('fmt', v, 'repr')]))]
        return self.repr_(v, st, node)

    def repr_(self, v, st, node):
        I = self.I
        if isinstance(v, K):
            return [(st, K(repr(v.v)))]
        if isinstance(v, N):
            return [(s, mkstr(ps)) for s, ps in self.fmt(st, v, -1, '', node)]
        if isinstance(v, F):
            return [(st, mkstr([('fmt', v, '')]))]
        if isinstance(v, B):
            return [(s, K(repr(t))) for s, t in I.truth(v, st, node)]
        if isinstance(v, S):
            return [(st, mkstr([('reprstr', v, '')]))]
        if isinstance(v, T):
            outs = [(st, [])]
            for x in v.items:
                outs = [(s2, ps + [r]) for s, ps in outs for s2, r in self.repr_(x, s, node)]
            return [(s, self._joined('(', ps, ',)' if len(ps) == 1 else ')')) for s, ps in outs]
        if isinstance(v, R):
            r = st.heap[v.oid]
            if isinstance(r, Obj):
                f = r.cls.lookup('__repr__')
                if f is not None:
                    return I.call(Bm(v, f), [], {}, st, node)
                if r.cls.dataclass is not None or r.cls.namedtuple:
                    outs = [(st, [])]
                    for k, x in r.f.items():
                        outs = [(s2, ps + [mkstr((k + '=',) + (q.parts if isinstance(q, S) else (q.v,)))]) for s, ps in outs for s2, q in self.repr_(x, s, node)]
                    return [(s, self._joined(r.cls.name + '(', ps, ')')) for s, ps in outs]
            if isinstance(r, Dct) and r.kind == 'dict' and r.default is None and not r.multi and all(isinstance(g, El) for g in r.segs):
                outs = [(st, [])]
                for g in r.segs:
                    outs = [(s3, ps + [mkstr(self._sp(a) + [': '] + self._sp(b))]) for s, ps in outs for s2, a in self.repr_(g.v.items[0], s, node)
                            for s3, b in self.repr_(g.v.items[1], s2, node)]
                return [(s, self._joined('{', ps, '}')) for s, ps in outs]
            if isinstance(r, Dct) and r.kind == 'dict' and r.multi and r.default is None and all(isinstance(g, El) and (isinstance(g.v.items[0], K) or isinstance(g.v.items[0], N) and g.v.items[0].p.is_const())
                                                                                                   for g in r.segs):
                groups = {}
                for g in r.segs:
                    groups.setdefault(g.v.items[0].key, (g.v.items[0], []))[1].append(g.v.items[1])
                outs = [(st, [])]
                for k, xs in groups.values():
                    inner = [(s, ps, []) for s, ps in outs]
                    for x in xs:
                        inner = [(s2, ps, qs + [q]) for s, ps, qs in inner for s2, q in self.repr_(x, s, node)]
                    outs = [(s2, ps + [mkstr(self._sp(a) + [': '] + self._sp(self._joined('[', qs, ']')))]) for s, ps, qs in inner for s2, a in self.repr_(k, s, node)]
                return [(s, self._joined('{', ps, '}')) for s, ps in outs]
            if isinstance(r, Lst) and r.kind == 'list':
                out = []
                for s, l in self.map_list(st, r.segs, lambda s, e: self.repr_(e, s, node), node, 'repr', 'list'):
                    out += [(s2, mkstr(['['] + self._sp(x) + [']'])) for s2, x in self.str_join(K(', '), l, s, node)]
                return out
        return [(st, mkstr([('fmt', v, 'repr')]))]

    @staticmethod
    def _sp(x):
        return list(x.parts) if isinstance(x, S) else [x.v] if isinstance(x, K) else [('fmt', x, '')]

    def _joined(self, a, ps, b):
        parts = [a]
        for i, p in enumerate(ps):
            if i:
                parts.append(', ')
            parts += self._sp(p)
        return mkstr(parts + [b])

    def str_join(self, sep, v, st, node):
        I = self.I
        out = []
        for s, segs in self.segs(v, st, node):
            if all(isinstance(g, El) for g in segs):
                parts = []
                bad = False
                for i, g in enumerate(segs):
                    if not isstr(g.v) and not isinstance(g.v, U):
                        bad = True
                    if i:
                        parts += self._sp(sep)
                    parts += self._sp(g.v)
                if bad:
                    I.throw(s, 'TypeError', node)
                else:
                    out.append((s, mkstr(parts)))
            else:
                out.append((s, S([('join', sep, tuple(segs))])))
        return out

    def bytes_join(self, sep, v, st, node):
        I = self.I
        out = []
        sp = list(yparts(sep))
        for s, segs in self.segs(v, st, node):
            parts = []
            ok = True
            for i, g in enumerate(segs):
                if i and sp != [b'']:
                    parts += sp
                q = self._byteseg(g, s)
                if q is None:
                    ok = False
                    break
                parts += q
            if not ok:
                bad = [g for g in segs if isinstance(g, El) and not isbytes(g.v) and not isinstance(g.v, U)]
                if bad:
                    I.throw(s, 'TypeError', node)
                    continue
                out.append((s, I.unk('join', node)))
            else:
                out.append((s, mkbytes(parts)))
        return out

    def _byteseg(self, g, st):
        if isinstance(g, El):
            v = g.v
            if isinstance(v, R) and isinstance(st.heap.get(v.oid), Lst) and st.heap[v.oid].kind == 'bytearray':
                return self._babytes(st.heap[v.oid].segs)
            return list(yparts(v)) if isbytes(v) else None
        if isinstance(g, Star):
            for a in g.alts:
                for e in a.elems:
                    if isinstance(e, Sg):
                        if self._byteseg(e.seg, st) is None:
                            return None
                    elif not isbytes(e):
                        return None
            return [('star', g)]
        return None

    def _babytes(self, segs):
        """parts of a bytearray (elements are ints or whole byte strings)"""
        out = []
        for g in segs:
            if isinstance(g, El) and isinstance(g.v, N):
                out.append(('b', g.v.p))
            elif isinstance(g, El) and isbytes(g.v):
                out += list(yparts(g.v))
            elif isinstance(g, Star):
                out.append(('star', g))
            else:
                return None
        return out

    def percent(self, a, b, st, node):
        I = self.I
        args = list(b.items) if isinstance(b, T) else [b]
        if not isinstance(a, K):
            return [(st, I.unk('% formatting', node))]
        toks = re.split(r'(%%|%[#0\- +]*\d*(?:\.\d+)?[sdrifgeEGxXc])', a.v)
        outs = [(st, [])]
        it = iter(args)
        for t in toks:
            if t == '%%':
                outs = [(s, ps + ['%']) for s, ps in outs]
            elif t.startswith('%') and len(t) > 1:
                v = next(it, None)
                if v is None:
                    return I.throw(st, 'TypeError', node)
                if t in ('%s', '%d', '%i', '%r'):
                    nx = []
                    for s, ps in outs:
                        for s2, q in self.fmt(s, v, 114 if t == '%r' else 115 if t == '%s' else -1, '', node):
                            nx.append((s2, ps + q))
                    outs = nx
                else:
                    from lib_meth import topy
                    try:
                        lit = t % topy(v)
                    except (TypeError, OverflowError) as e:
                        return I.throw(st, type(e).__name__, node)
                    except ValueError:
                        lit = ('fmt', v, t)
                    outs = [(s, ps + [lit]) for s, ps in outs]
            elif t:
                outs = [(s, ps + [t]) for s, ps in outs]
        return [(s, mkstr(ps)) for s, ps in outs]

    def format_method(self, a, args, kw, st, node):
        I = self.I
        import string
        if not isinstance(a, K):
            return [(st, I.unk('format', node))]
        outs = [(st, [])]
        auto = 0
        try:
            pieces = list(string.Formatter().parse(a.v))
        except ValueError:
            return I.throw(st, 'ValueError', node)
        for lit, field, spec, conv in pieces:
            if lit:
                outs = [(s, ps + [lit]) for s, ps in outs]
            if field is None:
                continue
            m = re.match(r'^(\w*)((?:\.\w+|\[\w+\])*)$', field)
            if m is None or (spec and '{' in spec):
                return [(st, I.unk('format', node))]
            key, rest = m.groups()
            if key == '':
                key = str(auto)
                auto += 1
            if key.isdigit():
                if int(key) >= len(args):
                    return I.throw(st, 'IndexError', node)
                v = args[int(key)]
            else:
                if key not in kw:
                    return I.throw(st, 'KeyError', node)
                v = kw[key]
            nx = []
            for s, ps in outs:
                cur = [(s, v)]
                for acc in re.findall(r'\.\w+|\[\w+\]', rest):
                    c2 = []
                    for s2, x in cur:
                        if acc[0] == '.':
                            c2 += I.getattr_(x, acc[1:], s2, node)
                        else:
                            k = acc[1:-1]
                            c2 += self.getitem(x, N(int(k)) if k.isdigit() else K(k), s2, node)
                    cur = c2
                for s2, x in cur:
                    for s3, q in self.fmt(s2, x, ord(conv) if conv else -1, spec or '', node):
                        nx.append((s3, ps + q))
            outs = nx
        return [(s, mkstr(ps)) for s, ps in outs]


def _pycmp(op, a, b):
    return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
            '>': lambda: a > b, '>=': lambda: a >= b}[op]()
