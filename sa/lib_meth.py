"""Methods of builtin types."""
from lib_dict import *

PURE_STR = set('upper lower title capitalize strip lstrip rstrip isdigit isalpha isupper islower isalnum isdecimal isnumeric isspace '
               'casefold swapcase zfill center ljust rjust replace startswith endswith find rfind index rindex count encode '
               'removeprefix removesuffix isidentifier isascii hex decode split rsplit partition rpartition splitlines '
               'fromhex bit_length bit_count is_integer expandtabs'.split())


def topy(v):
    """python constant or raise"""
    if isinstance(v, K):
        return v.v
    if isinstance(v, N) and v.p.ival() is not None:
        return v.p.ival()
    if isinstance(v, T):
        return tuple(topy(i) for i in v.items)
    raise ValueError


class LibMeth(LibDict):
    def frompy(self, x, st):
        if isinstance(x, bool) or x is None or isinstance(x, (str, bytes, float)):
            return K(x)
        if isinstance(x, int):
            return N(x)
        if isinstance(x, tuple):
            return T([self.frompy(i, st) for i in x])
        if isinstance(x, list):
            return self.I.new(st, Lst('list', [El(self.frompy(i, st)) for i in x]))
        raise ValueError

    def call_method(self, f, args, kw, st, node):
        I = self.I
        v, name = f.recv, f.name.split('.', 1)[1]
        args = list(args)
        if f.name.startswith('dunder.'):
            return self.call_dunder(v, name, args, kw, st, node)
        if isinstance(v, R):
            r = st.heap[v.oid]
            if isinstance(r, Dct):
                return self.dict_method(v, r, name, args, kw, st, node)
            return self.list_method(v, r, name, args, kw, st, node)
        if isinstance(v, (K, N)) and name in PURE_STR:
            try:
                pv, pa, pk = topy(v), [topy(a) for a in args], {k: topy(a) for k, a in kw.items()}
                try:
                    s = st.copy()
                    return [(s, self.frompy(getattr(pv, name)(*pa, **pk), s))]
                except (ValueError, TypeError, IndexError, OverflowError, UnicodeError, AttributeError) as e:
                    return I.throw(st, type(e).__name__, node)
            except ValueError:
                pass
        if isint(v):
            p = asn(v).p
            if name == 'to_bytes':
                n = self._arg(args, kw, 0, 'length', N(1))
                e = self._arg(args, kw, 1, 'byteorder', K('big'))
                sg = kw.get('signed', FALSE)
                if not isinstance(n, N) or not isinstance(e, K):
                    return [(st, I.unk('to_bytes', node))]
                if e.v not in ('big', 'little'):
                    return I.throw(st, 'ValueError', node)
                np = st.facts.norm(n.p)
                n = np.ival()
                if n is None:
                    lo, hi = st.facts.bounds(np)
                    if abs(lo) > 1000 or abs(hi) > 1000 or hi - lo > 16:
                        return [(st, I.unk('to_bytes', node))]
                    out = []
                    for k in range(int(lo), int(hi) + 1):
                        s = st.assume(Cond('eq0', np - k))
                        if s is None:
                            continue
                        if k < 0:
                            I.throw(s, 'ValueError', node)
                        else:
                            out += self.to_bytes(p, k, e.v, bool(getattr(sg, 'v', False)), s, node)
                    return out
                return self.to_bytes(p, n, e.v, bool(getattr(sg, 'v', False)), st, node)
            if name == 'bit_length':
                b = ln.bitlen(p, st.facts)
                if b is None:
                    return [(st, N(Poly.atom(Atom('bitlen', (p,)))))]
                q, extra = b
                s = st
                for c in extra:
                    s2 = s.assume(c)
                    s = s2 if s2 is not None else s
                return [(s, N(q))]
            if name == 'bit_count':
                f0 = st.facts
                if ln.val2(p, f0) is not None and self._pow2(p, f0):
                    return [(st, N(1))]
                return [(st, N(Poly.atom(Atom('bitcount', (f0.norm(p),)))))]
            if name == 'conjugate':
                return [(st, v)]
            if name == 'is_integer':
                return [(st, TRUE)]
            if name == 'as_integer_ratio':
                return [(st, T([v, N(1)]))]
        if isinstance(v, F):
            if name == 'is_integer':
                return [(st, B(Cond('b', Atom('isinteger', (v.a,), 'bool'))))]
            return [(st, I.unk('float.' + name, node))]
        if isstr(v):
            return self.str_method(v, name, args, kw, st, node)
        if isbytes(v):
            return self.bytes_method(v, name, args, kw, st, node)
        if isinstance(v, T):
            if name == 'count':
                outs = [(st, ZERO)]
                for i in v.items:
                    outs = [(s2, c + 1 if e else c) for s, c in outs for s2, e in self.keyeq(i, args[0], s, node)]
                return [(s, N(c)) for s, c in outs]
            if name == 'index':
                out, cur = [], [st]
                for k, i in enumerate(v.items):
                    nx = []
                    for s in cur:
                        for s2, e in self.keyeq(i, args[0], s, node):
                            out.append((s2, N(k))) if e else nx.append(s2)
                    cur = nx
                for s in cur:
                    I.throw(s, 'ValueError', node)
                return out
        return [(I.havoc(st, [v] + args, kw), I.unk('method ' + name, node))]

    def _pow2(self, p, f):
        return f.norm(p).pow2_exp() is not None

    # ----------------------------------------------------------------- dunders
    def call_dunder(self, v, name, args, kw, st, node):
        I = self.I
        nm = name.strip('_')
        ops = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/', 'floordiv': '//', 'mod': '%', 'pow': '**', 'and': '&', 'or': '|',
               'xor': '^', 'lshift': '<<', 'rshift': '>>'}
        cm = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}
        if nm in ops:
            return I.binop(ops[nm], v, args[0], st, node)
        if nm[:1] == 'r' and nm[1:] in ops and args:
            return I.binop(ops[nm[1:]], args[0], v, st, node)
        if nm in cm:
            return I.compare(cm[nm], v, args[0], st, node)
        if nm == 'len':
            return self.length(v, st, node)
        if nm == 'contains':
            return I.compare('in', args[0], v, st, node)
        if nm == 'getitem':
            return self.getitem(v, args[0], st, node)
        if nm == 'setitem':
            return [(s, NONE) for s in self.setitem(v, args[0], args[1], st, node)]
        if nm == 'delitem':
            return [(s, NONE) for s in self.delitem(v, args[0], st, node)]
        if nm == 'iter':
            return self.call(Bi('builtins.iter'), [v], {}, st, node)
        if nm == 'next':
            return self.call(Bi('builtins.next'), [v], {}, st, node)
        if nm in ('repr', 'str', 'hash', 'int', 'float', 'abs', 'bool', 'index', 'round', 'format'):
            return self.call(Bi('builtins.' + {'index': 'int'}.get(nm, nm)), [v] + args, kw, st, node)
        if nm in ('neg', 'pos', 'invert'):
            return I.unary({'neg': '-', 'pos': '+', 'invert': '~'}[nm], v, st, node)
        return [(I.havoc(st, [v] + args, kw), I.unk('method ' + name, node))]

    # ------------------------------------------------------------------- dicts
    def dict_method(self, v, r, name, args, kw, st, node):
        I = self.I
        if name == 'get':
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            return [(s, x if x is not None else d) for s, x in self.dict_get(st, v, args[0], node, want=True)]
        if name in ('items', 'keys', 'values'):
            st = st.copy()
            segs = self.dict_keys(st, st.heap[v.oid], name)
            return [(st, I.new(st, Lst('dictview', segs)))]
        if name == 'setdefault':
            d = args[1] if len(args) > 1 else NONE
            rr = st.heap[v.oid]
            if not rr.multi and not rr.segs and isinstance(d, R) and isinstance(st.heap[d.oid], Lst) and st.heap[d.oid].kind == 'list' \
                    and not st.heap[d.oid].segs:
                st = st.copy()
                st.wr(v.oid).multi = True
            out = []
            for s, x in self.dict_get(st, v, args[0], node, want=True):
                if x is not None:
                    out.append((s, x))
                elif s.heap[v.oid].multi:
                    if isinstance(d, R) and isinstance(s.heap[d.oid], Lst) and not s.heap[d.oid].segs:
                        s = s.copy()
                        out.append((s, I.new(s, View(v.oid, args[0]))))
                    else:
                        s = s.copy()
                        s.imp = s.imp | {'setdefault'}
                        out.append((s, d))
                else:
                    out += [(s2, d) for s2 in self.dict_set(s, v, args[0], d, node)]
            return out
        if name == 'pop':
            self.note_write(v, st, node)
            out = []
            for s, x in self.dict_get(st, v, args[0], node, want=True):
                if x is None:
                    if len(args) > 1:
                        out.append((s, args[1]))
                    else:
                        I.throw(s, 'KeyError', node)
                elif s.heap[v.oid].multi:
                    s = s.copy()
                    s.imp = s.imp | {'pop from a dictionary of lists'}
                    out.append((s, x))
                else:
                    out += [(s2, x) for s2 in self.dict_del(s, v, args[0], node)]
            return out
        if name == 'update':
            self.note_write(v, st, node)
            cur = [st]
            if args:
                a = args[0]
                ra = st.heap.get(a.oid) if isinstance(a, R) else None
                if isinstance(ra, Dct) and not ra.multi:
                    for g in ra.segs:
                        if isinstance(g, El):
                            cur = [s2 for s in cur for s2 in self.dict_set(s, v, g.v.items[0], g.v.items[1], node)]
                        else:
                            nx = []
                            for s in cur:
                                s = s.copy()
                                q = s.wr(v.oid)
                                q.segs = q.segs + (g,)
                                nx.append(s)
                            cur = nx
                else:
                    nx = []
                    for s in cur:
                        for s1, segs in self.segs(a, s, node):
                            c2 = [s1]
                            for g in segs:
                                if isinstance(g, El) and isinstance(g.v, T) and len(g.v.items) == 2:
                                    c2 = [s3 for s2 in c2 for s3 in self.dict_set(s2, v, g.v.items[0], g.v.items[1], node)]
                                else:
                                    for s2 in c2:
                                        s2.imp = s2.imp | {'dict.update'}
                            nx += c2
                    cur = nx
            for k, x in kw.items():
                cur = [s2 for s in cur for s2 in self.dict_set(s, v, K(k), x, node)]
            return [(s, NONE) for s in cur]
        if name == 'clear':
            self.note_write(v, st, node)
            st = st.copy()
            st.wr(v.oid).segs = ()
            return [(st, NONE)]
        if name == 'copy':
            st = st.copy()
            if r.multi:
                return [(st, I.unk('copy of a dictionary of lists', node))]
            return [(st, I.new(st, Dct(r.segs, r.default, r.multi, r.kind)))]
        self.note_write(v, st, node)
        st = st.copy()
        st.imp = st.imp | {'dict.' + name}
        st.wr(v.oid).segs = (Star('unknown', [Alt([], [I.unk('dict.' + name, node)])]),)
        return [(st, I.unk('dict.' + name, node))]

    # ------------------------------------------------------------------- lists
    def list_method(self, v, r, name, args, kw, st, node):
        I = self.I
        if isinstance(r, View):
            segs = self.view_segs(st, r)
        else:
            segs = r.segs
        kind = getattr(r, 'kind', 'list')
        if name in ('append', 'add', 'appendleft'):
            x = args[0]
            if kind == 'bytearray':
                out = []
                for s, b in self.call(Bi('builtins.bytes'), [I.new(st, Lst('list', [El(x)]))], {}, st, node):
                    out.append((self.list_add(s, v, self._ba_segs(b) if isbytes(b) else [El(x)], node), NONE))
                return out
            if name == 'add' and segs and not (self.const_key(x) and all(isinstance(g, El) and self.const_key(g.v) for g in segs)):
                out = []
                for s, m in self.contains(v, x, st, node):
                    for s2, t in I.truth(m, s, node):
                        out.append((s2 if t else self.list_add(s2, v, [El(x)], node), NONE))
                return out
            return [(self.list_add(st, v, [El(x)], node, front=name == 'appendleft'), NONE)]
        if name in ('extend', 'update'):
            if kind == 'bytearray' and isbytes(args[0]):
                return [(self.list_add(st, v, self._ba_segs(args[0]), node), NONE)]
            return self.list_extend(st, v, args[0], node)
        if name == 'sort':
            return self.sort_list(v, kw, st, node)
        if name == 'copy':
            st = st.copy()
            return [(st, I.new(st, Lst(kind, segs)))]
        if name == 'clear' and not isinstance(r, View):
            self.note_write(v, st, node)
            st = st.copy()
            st.wr(v.oid).segs = ()
            return [(st, NONE)]
        if name in ('pop', 'popleft') and not isinstance(r, View):
            return self.list_pop(v, name, args, st, node)
        if name == 'reverse' and not isinstance(r, View):
            self.note_write(v, st, node)
            st = st.copy()
            if all(isinstance(g, El) for g in segs):
                st.wr(v.oid).segs = tuple(segs[::-1])
            else:
                st.imp = st.imp | {'reverse'}
                st.wr(v.oid).segs = (Unord(segs),)
            return [(st, NONE)]
        if name == 'insert' and not isinstance(r, View):
            self.note_write(v, st, node)
            i = args[0].p.ival() if isinstance(args[0], N) else None
            st = st.copy()
            if i == 0:
                st.wr(v.oid).segs = (El(args[1]),) + tuple(segs)
                return [(st, NONE)]
            if i is not None and all(isinstance(g, El) for g in segs):
                l = list(segs)
                l.insert(i, El(args[1]))
                st.wr(v.oid).segs = tuple(l)
                return [(st, NONE)]
            if isinstance(args[0], N) and st.facts.decide(Cond('eq0', args[0].p - self.seglen(segs))) is True:
                st.wr(v.oid).segs = tuple(segs) + (El(args[1]),)
                return [(st, NONE)]
            out = []
            if isinstance(args[0], N) and all(isinstance(g, El) for g in segs):
                for j in range(len(segs) + 1):
                    s = st.assume(Cond('eq0', args[0].p - j))
                    if s is not None:
                        s.wr(v.oid).segs = tuple(segs[:j]) + (El(args[1]),) + tuple(segs[j:])
                        out.append((s, NONE))
                if out:
                    return out
            st.wr(v.oid).segs = (Unord(tuple(segs) + (El(args[1]),)),)
            return [(st, NONE)]
        if name == 'count':
            if kind == 'bytearray' or not all(isinstance(g, El) for g in segs):
                return [(st, I.unk('count', node))]
            return self.call_method(Bi('m.count', T([g.v for g in segs])), args, kw, st, node)
        if name == 'index':
            if not all(isinstance(g, El) for g in segs):
                return [(st, I.unk('index', node))]
            return self.call_method(Bi('m.index', T([g.v for g in segs])), args, kw, st, node)
        if name in ('remove', 'discard') and not isinstance(r, View):
            self.note_write(v, st, node)
            if all(isinstance(g, El) for g in segs):
                out, cur = [], [st]
                for i, g in enumerate(segs):
                    nx = []
                    for s in cur:
                        for s2, e in self.keyeq(g.v, args[0], s, node):
                            if e:
                                s2 = s2.copy()
                                s2.wr(v.oid).segs = tuple(segs[:i]) + tuple(segs[i + 1:])
                                out.append((s2, NONE))
                            else:
                                nx.append(s2)
                    cur = nx
                for s in cur:
                    if name == 'discard':
                        out.append((s, NONE))
                    else:
                        I.throw(s, 'ValueError' if kind != 'set' else 'KeyError', node)
                return out
        if kind == 'bytearray' and name in ('hex', 'decode', 'startswith', 'endswith', 'join', 'find'):
            ps = self._babytes(segs)
            if ps is not None:
                return self.call_method(Bi('m.' + name, mkbytes(ps)), args, kw, st, node)
        if kind in ('set', 'frozenset') and name in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference'):
            if len(args) == 1:
                return [x for s, sg in self.segs(args[0], st, node)
                        for x in self.set_value(name, kind, segs, sg[0].segs if len(sg) == 1 and isinstance(sg[0], Unord) else sg, s, node)]
            return [(st, I.unk('set.' + name, node))]
        self.note_write(v, st, node)
        st = st.copy()
        st.imp = st.imp | {f'{kind}.{name}'}
        if isinstance(r, Lst):
            st.wr(v.oid).segs = (Star('unknown', [Alt([], [I.unk(f'{kind}.{name}', node)])]),)
        return [(st, I.unk(f'{kind}.{name}', node))]

    def list_pop(self, v, name, args, st, node):
        I = self.I
        self.note_write(v, st, node)
        r = st.heap[v.oid]
        segs = r.segs
        i = -1 if name == 'pop' and not args else 0 if name == 'popleft' else args[0].p.ival() if isinstance(args[0], N) else None
        if not segs:
            return I.throw(st, 'IndexError' if r.kind != 'set' else 'KeyError', node)
        if i in (0, -1):
            g = segs[i]
            if isinstance(g, El):
                s = st.copy()
                s.wr(v.oid).segs = tuple(segs[1:]) if i == 0 else tuple(segs[:-1])
                return [(s, g.v)]
        if all(isinstance(g, El) for g in segs) and i is not None:
            if not -len(segs) <= i < len(segs):
                return I.throw(st, 'IndexError', node)
            s = st.copy()
            l = list(segs)
            g = l.pop(i)
            s.wr(v.oid).segs = tuple(l)
            return [(s, g.v)]
        # a sequence of unknown length
        out = []
        for s, ne in self.nonempty(st, v):
            if not ne:
                I.throw(s, 'IndexError', node)
                continue
            s = s.copy()
            s.imp = s.imp | {'pop from a sequence of unknown length'}
            s.wr(v.oid).segs = (Star('unknown', [Alt([], [I.unk('rest after pop', node)])]),)
            out.append((s, I.unk('popped element', node)))
        return out

    # ------------------------------------------------------------------ strings
    def str_method(self, v, name, args, kw, st, node):
        I = self.I
        if name == 'join':
            return self.str_join(v, args[0], st, node)
        if name == 'format':
            return self.format_method(v, args, kw, st, node)
        if name == 'count' and isinstance(args[0], K) and len(args) == 1 and isinstance(args[0].v, str) and len(args[0].v) == 1:
            ch = args[0].v
            if isinstance(v, S) and ch == '1' and len(v.parts) == 1 and v.parts[0][0] == 'bin':
                return I.getattr_call(N(v.parts[0][1]), 'bit_count', st, node)
            if isinstance(v, S):
                r = ZERO
                import regex
                for p in v.parts:
                    if isinstance(p, str):
                        r = r + p.count(ch)
                    elif p[0] == 'sym' and getattr(p[1], 'kind', None) == 'grp':
                        al = regex.group_alphabet(p[1])
                        if al is not None and ch not in al:
                            continue
                        r = r + Poly.atom(Atom('cnt', (p[1], ch)))
                    elif p[0] == 'sym':
                        r = r + Poly.atom(Atom('cnt', (p[1], ch)))
                    else:
                        return [(st, I.unk('str.count', node))]
                return [(st, N(r))]
        if isinstance(v, S) and len(v.parts) == 1 and v.parts[0][0] == 'sym':
            sp = self.str_partition(v, st)
            if sp is not None:
                return [x for s, k in sp for x in self.call_method(Bi('m.' + name, k), args, kw, s, node)]
            return self.sym_method(v, name, args, kw, st, node)
        return [(st, I.unk('str.' + name, node))]

    def sym_method(self, v, name, args, kw, st, node):
        """methods of an unknown string: uninterpreted but evaluable terms"""
        I = self.I
        try:
            pa = tuple(topy(a) for a in args)
            if kw:
                raise ValueError
        except ValueError:
            return [(st, I.unk('str.' + name, node))]
        a = v.parts[0][1]
        if name in ('upper', 'lower', 'title', 'capitalize', 'casefold', 'swapcase', 'strip', 'lstrip', 'rstrip', 'replace', 'removeprefix', 'removesuffix'):
            import regex
            if name in ('strip', 'lstrip', 'rstrip') and getattr(a, 'kind', '') == 'grp':
                al = regex.group_alphabet(a)
                cs = set(pa[0]) if pa else None
                if al is not None and (not any(c.isspace() for c in al) if cs is None else not (cs & al)):
                    return [(st, v)]
            return [(st, S([('sym', Atom('strm', (a, name, pa), 'str'))]))]
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isupper', 'islower', 'isalnum', 'isdecimal', 'isnumeric', 'isspace', 'isascii'):
            return [(st, B(Cond('b', Atom('strb', (a, name, pa), 'bool'))))]
        return [(st, I.unk('str.' + name, node))]

    def bytes_method(self, v, name, args, kw, st, node):
        I = self.I
        if name == 'join':
            return self.bytes_join(v, args[0], st, node)
        if name in ('startswith',) and isbytes(args[0]):
            n = self.blen(args[0])
            out = []
            for s, short in I.split(st, Cond('lt0', self.blen(v) - n)):
                if short:
                    out.append((s, FALSE))
                    continue
                for s2, h in self.yslice(v, ZERO, n, s, node):
                    out += I.compare('==', h, args[0], s2, node)
            return out
        if name in ('tobytes',):
            return [(st, v)]
        if name in ('ljust', 'rjust') and self.bytelist(v) is not None and isinstance(args[0], N) and args[0].p.ival() is not None:
            n = args[0].p.ival() - len(self.bytelist(v))
            fill = args[1].v if len(args) > 1 else b' '
            if n <= 0:
                return [(st, v)]
            pad = fill * n
            return [(st, mkbytes(([pad] if name == 'rjust' else []) + list(yparts(v)) + ([pad] if name == 'ljust' else [])))]
        return [(st, I.unk('bytes.' + name, node))]
