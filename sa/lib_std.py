"""Library modules."""
import struct as _struct
from lib_meth import *


class LibStd(LibMeth):
    # ---------------------------------------------------------------- operator
    def operator_(self, name, args, kw, st, node, f):
        I = self.I
        ops = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/', 'floordiv': '//', 'mod': '%', 'pow': '**', 'and_': '&', 'or_': '|',
               'xor': '^', 'lshift': '<<', 'rshift': '>>', 'concat': '+'}
        cm = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'is_': 'is', 'is_not': 'is not'}
        if f.recv is not None or f.data:
            pass
        if name in ops:
            return I.binop(ops[name], args[0], args[1], st, node)
        if name in cm:
            return I.compare(cm[name], args[0], args[1], st, node)
        if name == 'neg':
            return I.unary('-', args[0], st, node)
        if name == 'not_':
            return [(s, K(not t)) for s, t in I.truth(args[0], st, node)]
        if name == 'truth':
            return [(s, K(t)) for s, t in I.truth(args[0], st, node)]
        if name == 'getitem':
            return self.getitem(args[0], args[1], st, node)
        if name == 'contains':
            return I.compare('in', args[1], args[0], st, node)
        if name == 'index':
            return [(st, args[0])]
        if name in ('itemgetter', 'attrgetter', 'methodcaller'):
            return [(st, Bi('call.' + name, None, args))]
        return [(I.havoc(st, args, kw), I.unk('operator.' + name, node))]

    def f_call_itemgetter(self, f, args, kw, st, node):
        outs = [(st, [])]
        for k in f.data:
            outs = [(s2, vs + [v]) for s, vs in outs for s2, v in self.getitem(args[0], k, s, node)]
        return [(s, vs[0] if len(vs) == 1 else T(vs)) for s, vs in outs]

    def f_call_attrgetter(self, f, args, kw, st, node):
        I = self.I
        outs = [(st, [])]
        for k in f.data:
            nx = []
            for s, vs in outs:
                cur = [(s, args[0])]
                for part in k.v.split('.'):
                    cur = [y for s2, x in cur for y in I.getattr_(x, part, s2, node)]
                nx += [(s2, vs + [x]) for s2, x in cur]
            outs = nx
        return [(s, vs[0] if len(vs) == 1 else T(vs)) for s, vs in outs]

    def f_call_methodcaller(self, f, args, kw, st, node):
        I = self.I
        out = []
        for s, m in I.getattr_(args[0], f.data[0].v, st, node):
            out += I.call(m, list(f.data[1:]), {}, s, node)
        return out

    # ------------------------------------------------------------------ random
    def random_(self, n, args, kw, st, node):
        I = self.I
        name = n.split('.')[-1]
        fixed = name in ('seed', 'Random') and any(x is not NONE and not (isinstance(x, K) and x.v is None) for x in list(args) + list(kw.values()))
        I.events.append(('seeded' if fixed else 'random', n, I.loc(node)))
        I.n += 1
        st = st.copy()
        if name in ('gauss', 'normalvariate'):
            args = list(args) + [kw.get(k, K(d)) for k, d in (('mu', 0.0), ('sigma', 1.0))][len(args):]
            if all(isinstance(x, K) and isinstance(x.v, float) and x.v - x.v == 0 for x in args) and args[1].v == 0:
                return [(st, args[0])]
        if I.draws is not None and name in ('random', 'uniform', 'gauss', 'normalvariate') and all(isinstance(x, K) and isinstance(x.v, (int, float)) or isint(x) for x in args):
            # the scenario fixes what is drawn
            v = I.draws(name, [float(x.v) if isinstance(x, K) else None for x in args])
            if v is not None:
                return [(st, K(v))]
        if name in ('random', 'uniform', 'gauss', 'normalvariate', 'triangular', 'betavariate'):
            a = Atom('rand', (name, I.site(node), I.n) + tuple(fterm(x) if isnum(x) else x.key for x in args), 'float')
            if name in ('random', 'uniform'):
                lo, hi = (0.0, 1.0) if name == 'random' else (args[0], args[1]) if len(args) > 1 else (kw.get('a'), kw.get('b'))
                if name == 'uniform':
                    if not (isnum(lo) and isnum(hi)):
                        return [(st, F(a))]
                    lo, hi = fterm(lo), fterm(hi)
                # the draw lies between its two arguments, whatever their order
                out = []
                for s, up in I.split(st, Cond('fle', lo, hi)):
                    x, y = (lo, hi) if up else (hi, lo)
                    s2 = s.assume(Cond('fle', x, a))
                    s3 = s2.assume(Cond('fle', a, y)) if s2 is not None else None
                    if s3 is not None and name == 'random':
                        s3 = s3.assume(Cond('flt', a, 1.0)) or s3
                    if s3 is not None:
                        out.append((s3, F(a)))
                return out
            return [(st, F(a))]
        if name in ('randint', 'randrange', 'getrandbits'):
            a = Atom('randi', (name, I.site(node), I.n))
            p = Poly.atom(a)
            if name == 'randint' and all(isint(x) for x in args):
                for c in (Cond('le0', asn(args[0]).p - p), Cond('le0', p - asn(args[1]).p)):
                    s = st.assume(c)
                    st = s if s is not None else st
            return [(st, N(p))]
        if name == 'seed':
            return [(st, NONE)]
        if name == 'Random':
            return [(st, Bi('random'))]
        return [(I.havoc(st, args, kw), I.unk(n, node))]

    # ------------------------------------------------------------------- regex
    def f_re_compile(self, f, args, kw, st, node):
        fl = args[1] if len(args) > 1 else kw.get('flags', N(0))
        return [(st, Bi('re.pattern', None, [args[0], fl]))]

    def f_re_purge(self, f, args, kw, st, node):
        return [(st, NONE)]

    def _re_fn(self, m):
        def h(f, args, kw, st, node):
            fl = args[2] if len(args) > 2 else kw.get('flags', N(0))
            return self.pat_apply(m, Bi('re.pattern', None, [args[0], fl]), args[1], st, node)
        return h

    def f_re_match(self, f, args, kw, st, node):
        return self._re_fn('match')(f, args, kw, st, node)

    def f_re_fullmatch(self, f, args, kw, st, node):
        return self._re_fn('fullmatch')(f, args, kw, st, node)

    def f_re_search(self, f, args, kw, st, node):
        return self._re_fn('search')(f, args, kw, st, node)

    def f_pat_match(self, f, args, kw, st, node):
        return self.pat_apply('match', f.recv, args[0], st, node)

    def f_pat_fullmatch(self, f, args, kw, st, node):
        return self.pat_apply('fullmatch', f.recv, args[0], st, node)

    def f_pat_search(self, f, args, kw, st, node):
        return self.pat_apply('search', f.recv, args[0], st, node)

    def _pat_const(self, how):
        """a function of the re module folded over constants"""
        def h(f, args, kw, st, node):
            I = self.I
            pat = f.recv
            try:
                a = [topy(x) for x in args]
                k = {n: topy(x) for n, x in kw.items()}
                rx = re.compile(topy(pat.data[0]), topy(pat.data[1]))
                r = getattr(rx, how)(*a, **k)
            except (ValueError, TypeError, AttributeError, re.error, IndexError):
                st = st.copy()
                st.imp = st.imp | {'re.' + how}
                return [(st, I.unk('re.' + how, node))]
            if isinstance(r, (str, bytes)):
                return [(st, K(r))]
            st = st.copy()
            if how == 'subn':
                return [(st, T([K(r[0]), N(r[1])]))]
            return [(st, I.new(st, Lst('list', [El(T([K(y) for y in x]) if isinstance(x, tuple) else K(x)) for x in r])))]
        return h

    def _re_const(self, how, at):
        def h(f, args, kw, st, node):
            kw = dict(kw)
            fl = kw.pop('flags', N(0))
            args = list(args)
            if len(args) > at:
                fl = args.pop(at)
            return self._pat_const(how)(Bi('pat.' + how, Bi('re.pattern', None, [args[0], fl])), args[1:], kw, st, node)
        return h

    def f_re_sub(self, *a):
        return self._re_const('sub', 4)(*a)

    def f_re_findall(self, *a):
        return self._re_const('findall', 2)(*a)

    def f_re_split(self, *a):
        return self._re_const('split', 3)(*a)

    def f_pat_sub(self, *a):
        return self._pat_const('sub')(*a)

    def f_pat_findall(self, *a):
        return self._pat_const('findall')(*a)

    def f_pat_split(self, *a):
        return self._pat_const('split')(*a)

    def _match_place(self, name):
        def h(f, args, kw, st, node):
            m = f.recv
            if m.data[0].v == 'const' and len(m.data) == 5:
                rx = re.compile(m.data[1].v, m.data[2].p.ival())
                try:
                    r = getattr(getattr(rx, m.data[3].v)(m.data[4].v), name)(*[topy(a) for a in args])
                except ValueError:
                    return [(st, self.I.unk('match.' + name, node))]
                except IndexError:
                    return self.I.throw(st, 'IndexError', node)
                return [(st, N(r) if isinstance(r, int) else T([N(i) for i in r]))]
            return [(st, self.I.unk('match.' + name, node))]
        return h

    def f_match_start(self, *a):
        return self._match_place('start')(*a)

    def f_match_end(self, *a):
        return self._match_place('end')(*a)

    def f_match_span(self, *a):
        return self._match_place('span')(*a)

    def pat_apply(self, how, pat, s, st, node):
        I = self.I
        if isinstance(s, U):
            return [(st, I.unk('regex on unknown string', node))]
        if not isstr(s):
            return I.throw(st, 'TypeError', node)
        if not isinstance(pat.data[0], K) or not isinstance(pat.data[1], N) or pat.data[1].p.ival() is None:
            return [(st, I.unk('regex', node))]
        p, fl = pat.data[0].v, pat.data[1].p.ival()
        try:
            rx = re.compile(p, fl)
        except re.error:
            return [(st, I.unk('regex', node))]
        if isinstance(s, K):
            m = getattr(rx, how)(s.v)
            if m is None:
                return [(st, NONE)]
            return [(st, Bi('re.match', None, [K('const'), K(p), N(fl), K(how), s]))]
        subj = s.parts[0][1] if len(s.parts) == 1 and s.parts[0][0] == 'sym' else None
        if subj is None:
            h = I.hooks.get('$regex')
            if h is not None:
                r = h(I, how, p, fl, s, st, node)
                if r is not None:
                    return r
            return [(st, I.unk('regex on a composite string', node))]
        c = Cond('b', Atom('rematch', (p, fl, how, subj), 'bool'))
        h = I.hooks.get('$rematch')
        if h is not None:
            h(p, fl, how, subj)
        out = []
        for s2, t in I.split(st, c):
            if t:
                out.append((s2, Bi('re.match', None, [K('sym'), K(p), N(fl), K(how), S([('sym', subj)])])))
            else:
                out.append((s2, NONE))
        return out

    def match_group(self, m, g, st, node):
        """value of one group"""
        I = self.I
        kind, p, fl, how, s = m.data
        rx = re.compile(p.v, fl.p.ival())
        try:
            gi = topy(g)
        except ValueError:
            return [(st, I.unk('group', node))]
        if isinstance(gi, str):
            if gi not in rx.groupindex:
                return I.throw(st, 'IndexError', node)
            gi = rx.groupindex[gi]
        if gi > rx.groups:
            return I.throw(st, 'IndexError', node)
        if kind.v == 'const':
            return [(st, K(getattr(rx, how.v)(s.v).group(gi)))]
        subj = s.parts[0][1]
        import regex
        a = Atom('grp', (p.v, fl.p.ival(), how.v, subj, gi), 'str')
        h = I.hooks.get('$group')
        if h is not None:
            x = h(I, a, st)
            if x is not None:
                return x
        if regex.group_optional(a):
            out = []
            for s2, t in I.split(st, Cond('b', Atom('grpset', (a,), 'bool'))):
                out.append((s2, S([('sym', a)]) if t else NONE))
            return out
        return [(st, S([('sym', a)]))]

    def f_match_group(self, f, args, kw, st, node):
        if not args:
            args = [N(0)]
        outs = [(st, [])]
        for g in args:
            outs = [(s2, vs + [v]) for s, vs in outs for s2, v in self.match_group(f.recv, g, s, node)]
        return [(s, vs[0] if len(vs) == 1 else T(vs)) for s, vs in outs]

    def f_match___getitem__(self, f, args, kw, st, node):
        return self.f_match_group(f, args, kw, st, node)

    def f_match_groups(self, f, args, kw, st, node):
        m = f.recv
        rx = re.compile(m.data[1].v, m.data[2].p.ival())
        d = args[0] if args else kw.get('default', NONE)
        outs = [(st, [])]
        for g in range(1, rx.groups + 1):
            outs = [(s2, vs + [d if isinstance(v, K) and v.v is None else v]) for s, vs in outs for s2, v in self.match_group(m, N(g), s, node)]
        return [(s, T(vs)) for s, vs in outs]

    def f_match_groupdict(self, f, args, kw, st, node):
        m = f.recv
        rx = re.compile(m.data[1].v, m.data[2].p.ival())
        outs = [(st, [])]
        for nm in rx.groupindex:
            outs = [(s2, vs + [El(T([K(nm), v]))]) for s, vs in outs for s2, v in self.match_group(m, K(nm), s, node)]
        res = []
        for s, es in outs:
            s = s.copy()
            res.append((s, self.I.new(s, Dct(es))))
        return res

    # ------------------------------------------------------------------- heapq
    def _heap(self, st, ref, node):
        """the elements of the heap, arrangement forgotten"""
        r = st.heap[ref.oid]
        flat = []
        for g in (self.view_segs(st, r) if isinstance(r, View) else r.segs):
            if isinstance(g, (Sorted, Unord)):
                flat += list(g.segs)
            else:
                flat.append(g)
        return flat

    # explicit heaps are handled exactly: the comparisons of the real algorithm decide the arrangement
    def _lt(self, a, b, st, node):
        out = []
        for s, v in self.I.compare('<', a, b, st, node):
            out += self.I.truth(v, s, node)
        return out

    def _siftdown(self, st, items, start, pos, node):
        if pos <= start:
            return [(st, items)]
        par = (pos - 1) >> 1
        out = []
        for s, t in self._lt(items[pos], items[par], st, node):
            if t:
                it = list(items)
                it[pos], it[par] = it[par], it[pos]
                out += self._siftdown(s, it, start, par, node)
            else:
                out.append((s, items))
        return out

    def _siftup(self, st, items, pos, node):
        start = pos

        def go(s, it, p):
            c = 2 * p + 1
            if c >= len(it):
                return [(s, it, p)]
            res = []
            opts = [(s, c)]
            if c + 1 < len(it):
                opts = [(s2, c if t else c + 1) for s2, t in self._lt(it[c], it[c + 1], s, node)]
            for s2, ch in opts:
                j = list(it)
                j[p], j[ch] = j[ch], j[p]
                res += go(s2, j, ch)
            return res
        out = []
        for s, it, p in go(st, list(items), pos):
            out += self._siftdown(s, it, start, p, node)
        return out

    def _explicit(self, ref, st):
        r = st.heap[ref.oid] if isinstance(ref, R) else None
        if isinstance(r, Lst) and all(isinstance(g, El) for g in r.segs):
            return [g.v for g in r.segs]
        return None

    def _put(self, st, ref, items):
        s = st.copy()
        s.wr(ref.oid).segs = tuple(El(v) for v in items)
        return s

    def f_heapq_heappush(self, f, args, kw, st, node):
        I = self.I
        ref, x = args[0], args[1]
        if not (isinstance(ref, R) and isinstance(st.heap[ref.oid], Lst)):
            return [(I.havoc(st, args, kw), I.unk('heappush', node))]
        self.note_write(ref, st, node)
        ex = self._explicit(ref, st)
        if ex is not None:
            return [(self._put(s, ref, it), NONE) for s, it in self._siftdown(st, ex + [x], 0, len(ex), node)]
        flat = self._heap(st, ref, node)
        # the comparisons a push can make
        for e in self.elem_samples(flat)[:3]:
            I.compare('<', x, e, st, node)
        st = st.copy()
        segs = flat + [El(x)]
        st.wr(ref.oid).segs = tuple(segs) if len(segs) == 1 else (Unord(segs),)
        return [(st, NONE)]

    def elem_samples(self, segs):
        out = []
        for g in segs:
            if isinstance(g, El):
                out.append(g.v)
            elif isinstance(g, Star):
                for a in g.alts:
                    out += [e for e in a.elems if not isinstance(e, Sg)]
        return out

    def f_heapq_heapify(self, f, args, kw, st, node):
        ref = args[0]
        self.note_write(ref, st, node)
        ex = self._explicit(ref, st)
        if ex is not None:
            cur = [(st, ex)]
            for i in reversed(range(len(ex) // 2)):
                cur = [y for s, it in cur for y in self._siftup(s, it, i, node)]
            return [(self._put(s, ref, it), NONE) for s, it in cur]
        flat = self._heap(st, ref, node)
        st = st.copy()
        if len(flat) > 1 or (flat and not isinstance(flat[0], El)):
            st.wr(ref.oid).segs = (Unord(flat),)
        return [(st, NONE)]

    def f_heapq_heappop(self, f, args, kw, st, node):
        I = self.I
        ref = args[0]
        self.note_write(ref, st, node)
        ex = self._explicit(ref, st)
        if ex is not None:
            if not ex:
                return I.throw(st, 'IndexError', node)
            last = ex[-1]
            rest = ex[:-1]
            if not rest:
                return [(self._put(st, ref, []), last)]
            return [(self._put(s, ref, it), ex[0]) for s, it in self._siftup(st, [last] + rest[1:], 0, node)]
        st = st.copy()
        st.imp = st.imp | {'heappop'}
        st.wr(ref.oid).segs = (Star('unknown', [Alt([], [I.unk('heap rest', node)])]),)
        return [(st, I.unk('heappop', node))]

    def f_heapq_heappushpop(self, f, args, kw, st, node):
        out = []
        for s, _ in self.f_heapq_heappush(f, args, kw, st, node):
            out += self.f_heapq_heappop(f, args[:1], {}, s, node)
        return out

    def f_bisect_insort(self, f, args, kw, st, node, left=False):
        I = self.I
        ref, x = args[0], args[1]
        if not (isinstance(ref, R) and isinstance(st.heap[ref.oid], Lst)):
            return [(I.havoc(st, args, kw), I.unk('insort', node))]
        ex = self._explicit(ref, st)
        if ex is not None and not kw.get('lo') and not kw.get('hi') and len(args) == 2:
            self.note_write(ref, st, node)
            key = kw.get('key')

            def keyed(v, s):
                return I.call(key, [v], {}, s, node) if key is not None and key != NONE else [(s, v)]
            out = []

            def go(s, lo, hi):
                if lo >= hi:
                    out.append((self._put(s, ref, ex[:lo] + [x] + ex[lo:]), NONE))
                    return
                mid = (lo + hi) // 2
                for s2, kx in keyed(x, s):
                    for s3, km in keyed(ex[mid], s2):
                        for s4, t in (self._lt(km, kx, s3, node) if left else self._lt(kx, km, s3, node)):
                            if t == left:
                                go(s4, mid + 1, hi)
                            else:
                                go(s4, lo, mid)
            go(st, 0, len(ex))
            return out
        r = st.heap[ref.oid]
        if any(isinstance(g, Unord) for g in r.segs):
            return self.f_heapq_heappush(f, args, kw, st, node)
        self.note_write(ref, st, node)
        st = st.copy()
        flat = self._heap(st, ref, node)
        st.wr(ref.oid).segs = tuple(flat) + (El(x),)
        return self.sort_list(ref, {k: v for k, v in kw.items() if k == 'key'}, st, node)

    f_bisect_insort_right = f_bisect_insort

    def f_bisect_insort_left(self, f, args, kw, st, node):
        return self.f_bisect_insort(f, args, kw, st, node, left=True)

    # --------------------------------------------------------------- itertools
    def f_itertools_chain(self, f, args, kw, st, node):
        outs = [(st, [])]
        for a in args:
            outs = [(s2, gs + list(g)) for s, gs in outs for s2, g in self.segs(a, s, node)]
        res = []
        for s, gs in outs:
            s = s.copy()
            res.append((s, self.I.new(s, Lst('iter', gs))))
        return res

    def f_itertools_chain_from_iterable(self, f, args, kw, st, node):
        I = self.I
        out = []
        for s, segs in self.segs(args[0], st, node):
            if all(isinstance(g, El) for g in segs):
                out += self.f_itertools_chain(f, [g.v for g in segs], {}, s, node)
            else:
                s = s.copy()
                acc = I.new(s, Lst('iter', ()))

                def body(s2, e):
                    return [('next', s3, None) for s3, _ in self.list_extend(s2, acc, e, node)]
                for flow, s2, x in I.iterate(s, segs, body, I.site(node) + '.chain', node):
                    out.append((s2, acc))
        return out

    def f_itertools_repeat(self, f, args, kw, st, node):
        if len(args) > 1 and isinstance(args[1], N) and args[1].p.ival() is not None:
            st = st.copy()
            return [(st, self.I.new(st, Lst('iter', [El(args[0])] * max(0, args[1].p.ival()))))]
        return [(st, self.I.unk('repeat', node))]

    def f_itertools_islice(self, f, args, kw, st, node):
        out = []
        v = args[0]
        if isinstance(v, R) and (isinstance(st.heap[v.oid], GenRec) or isinstance(st.heap[v.oid], Lst) and st.heap[v.oid].kind == 'iter'
                                 and all(isinstance(g, El) for g in st.heap[v.oid].segs) or isobj(v, st)):
            return self.I.call(self.stub('islice'), args, kw, st, node)
        for s, segs in self.segs(args[0], st, node):
            s = s.copy()
            try:
                idx = [topy(a) for a in args[1:]]
            except ValueError:
                idx = None
            if idx is not None and all(isinstance(g, El) for g in segs):
                sl = slice(*idx) if len(idx) > 1 else slice(idx[0])
                out.append((s, self.I.new(s, Lst('iter', segs[sl]))))
            else:
                out.append((s, self.I.unk('islice', node)))
        return out

    def f_itertools_pairwise(self, f, args, kw, st, node):
        out = []
        for s, segs in self.segs(args[0], st, node):
            s = s.copy()
            if all(isinstance(g, El) for g in segs):
                out.append((s, self.I.new(s, Lst('iter', [El(T([a.v, b.v])) for a, b in zip(segs, segs[1:])]))))
            else:
                out.append((s, self.I.unk('pairwise', node)))
        return out

    def f_itertools_accumulate(self, f, args, kw, st, node):
        I = self.I
        op = args[1] if len(args) > 1 else kw.get('func')
        init = kw.get('initial')
        out = []
        for s, segs in self.segs(args[0], st, node):
            s = s.copy()
            if not all(isinstance(g, El) for g in segs):
                out.append((s, I.unk('accumulate', node)))
                continue
            vs = ([init] if init is not None and not (isinstance(init, K) and init.v is None) else []) + [g.v for g in segs]
            outs = [(s, [])]
            for x in vs:
                nx = []
                for s2, acc in outs:
                    if not acc:
                        nx.append((s2, [x]))
                    else:
                        rs = I.call(op, [acc[-1], x], {}, s2, node) if op is not None and not (isinstance(op, K)) else I.binop('+', acc[-1], x, s2, node)
                        nx += [(s3, acc + [y]) for s3, y in rs]
                outs = nx
            for s2, acc in outs:
                s2 = s2.copy()
                out.append((s2, I.new(s2, Lst('iter', [El(x) for x in acc]))))
        return out

    def f_itertools_starmap(self, f, args, kw, st, node):
        I = self.I
        out = []
        for s, segs in self.segs(args[1], st, node):
            def step(s2, e):
                r = []
                for s3, items in I.unpack_all(e, s2, node):
                    r += I.call(args[0], items, {}, s3, node)
                return r
            out += self.map_list(s, segs, step, node, 'starmap')
        return out

    # --------------------------------------------------------------- functools
    def f_functools_reduce(self, f, args, kw, st, node):
        I = self.I
        out = []
        for s, segs in self.segs(args[1], st, node):
            segs = tuple(segs)
            if len(args) > 2:
                init = args[2]
            elif segs and isinstance(segs[0], El):
                init, segs = segs[0].v, segs[1:]
            elif not segs:
                I.throw(s, 'TypeError', node)
                continue
            else:
                out.append((s, I.unk('reduce', node)))
                continue
            out += self.fold(s, segs, init, lambda s2, a, x: I.call(args[0], [a, x], {}, s2, node), node, 'reduce')
        return out

    def f_functools_partial(self, f, args, kw, st, node):
        return [(st, Bi('call.partial', None, [T(args), T([T([K(k), v]) for k, v in kw.items()])]))]

    def f_call_partial(self, f, args, kw, st, node):
        a = list(f.data[0].items)
        k = {x.items[0].v: x.items[1] for x in f.data[1].items}
        return self.I.call(a[0], a[1:] + list(args), {**k, **kw}, st, node)

    def f_functools_wraps(self, f, args, kw, st, node):
        return [(st, Bi('identity'))]

    def f_identity(self, f, args, kw, st, node):
        return [(st, args[0])]

    # -------------------------------------------------------------------- math
    def f_math_gcd(self, f, args, kw, st, node):
        I = self.I
        if not all(isint(a) for a in args):
            return I.throw(st, 'TypeError', node) if not any(isinstance(a, U) for a in args) else [(st, I.unk('gcd', node))]
        cs = [asn(a).p.ival() for a in args]
        if None not in cs:
            return [(st, N(math.gcd(*cs)))]
        if len(args) != 2:
            return [(st, I.unk('gcd', node))]
        h = I.hooks.get('$gcd')
        a, b = st.facts.norm(asn(args[0]).p), st.facts.norm(asn(args[1]).p)
        if a.key > b.key:
            a, b = b, a
        if h is not None:
            r = h(I, st, a, b, node)
            if r is not None:
                return r
        for x, y in ((a, b), (b, a)):
            m = y.ival()
            if m is not None and m > 0 and m & (m - 1) == 0 and m <= 1 << 64:
                # gcd with 2**k: case split on the number of factors 2 of x
                out, cur, j = [], [(st, x)], 0
                while 1 << j < m:
                    nx = []
                    for s, p in cur:
                        for s2, even in I.split(s, Cond('eq0', ln.mod2(s.facts.norm(p), 1, s.facts))):
                            if even:
                                nx.append((s2, ln.shr(s2.facts.norm(p), 1, s2.facts)))
                            else:
                                out.append((s2, N(Poly.const(1 << j))))
                    cur, j = nx, j + 1
                return out + [(s, N(Poly.const(m))) for s, _ in cur]
        return [(st, N(Poly.atom(Atom('gcd', (a, b)))))]

    def _math1(self, name, args, st, node):
        I = self.I
        v = args[0]
        if isinstance(v, U):
            return [(st, v)]
        if not isnum(v):
            return I.throw(st, 'TypeError', node)
        try:
            pv = topy(v)
            try:
                return [(st, self.frompy(getattr(math, name)(pv), st))]
            except (ValueError, OverflowError) as e:
                return I.throw(st, type(e).__name__, node)
        except ValueError:
            return None

    def f_math_sqrt(self, f, args, kw, st, node):
        r = self._math1('sqrt', args, st, node)
        return r if r is not None else [(st, mkf('fsqrt', fterm(args[0])))]

    def f_math_floor(self, f, args, kw, st, node):
        r = self._math1('floor', args, st, node)
        if r is not None:
            return r
        v = args[0]
        return [(st, v)] if isinstance(v, N) else [(st, N(Poly.atom(Atom('ffloor', (v.a,)))))]

    def f_math_ceil(self, f, args, kw, st, node):
        r = self._math1('ceil', args, st, node)
        if r is not None:
            return r
        v = args[0]
        return [(st, v)] if isinstance(v, N) else [(st, N(Poly.atom(Atom('fceil', (v.a,)))))]

    def f_math_trunc(self, f, args, kw, st, node):
        return self.call(Bi('builtins.int'), args, {}, st, node)

    def f_math_log2(self, f, args, kw, st, node):
        r = self._math1('log2', args, st, node)
        if r is not None:
            return r
        v = args[0]
        if isinstance(v, N):
            e = st.facts.norm(v.p).pow2_exp()
            if e is not None:
                return [(st, mkf('ffromint', e))]
        return [(st, mkf('flog2', fterm(v)))]

    def f_math_pow(self, f, args, kw, st, node):
        return [(st, mkf('fpow', *[mkf('ffromint', a.p).a if isinstance(a, N) and not a.p.is_const() else fterm(a) for a in args]))]

    def f_math_isnan(self, f, args, kw, st, node):
        r = self._math1('isnan', args, st, node)
        if r is not None:
            return r
        v = args[0]
        if isinstance(v, N):
            return [(st, FALSE)]
        return [(s, K(not t)) for s, t in self.I.split(st, Cond('feq', v.a, v.a))]

    def f_math_isfinite(self, f, args, kw, st, node):
        r = self._math1('isfinite', args, st, node)
        if r is not None:
            return r
        v = args[0]
        if isinstance(v, N):
            return [(st, TRUE)]
        out = []
        for s, t in self.I.split(st, Cond('flt', v.a, math.inf)):
            if not t:
                out.append((s, FALSE))
                continue
            for s2, t2 in self.I.split(s, Cond('flt', -math.inf, v.a)):
                out.append((s2, K(t2)))
        return out

    def f_math_isinf(self, f, args, kw, st, node):
        r = self._math1('isinf', args, st, node)
        if r is not None:
            return r
        v = args[0]
        if isinstance(v, N):
            return [(st, FALSE)]
        out = []
        for s, t in self.I.split(st, Cond('feq', v.a, math.inf)):
            if t:
                out.append((s, TRUE))
            else:
                out += [(s2, K(t2)) for s2, t2 in self.I.split(s, Cond('feq', v.a, -math.inf))]
        return out

    def f_math_prod(self, f, args, kw, st, node):
        I = self.I
        out = []
        for s, segs in self.segs(args[0], st, node):
            out += self.fold(s, segs, kw.get('start', N(1)), lambda s2, a, x: I.binop('*', a, x, s2, node), node, 'prod')
        return out

    # ------------------------------------------------------------------ struct
    FMT = {'B': (1, False), 'b': (1, True), 'H': (2, False), 'h': (2, True), 'I': (4, False), 'L': (4, False), 'i': (4, True), 'l': (4, True),
           'Q': (8, False), 'q': (8, True)}

    def _parse_fmt(self, v):
        if not (isinstance(v, K) and isinstance(v.v, str)):
            return None
        s = v.v
        endian = 'little'
        native = True
        if s[:1] in '<>!=@':
            endian = 'big' if s[0] in '>!' else 'little'
            native = s[0] == '@'
            s = s[1:]
        out, num = [], ''
        for ch in s.replace(' ', ''):
            if ch.isdigit():
                num += ch
                continue
            n = int(num) if num else 1
            if ch == 's':
                out.append(('s', n))
            elif ch == 'x':
                out += [('x', 1)] * n
            elif ch in self.FMT:
                if native and self.FMT[ch][0] > 1 and (out or n > 1):
                    return None
                out += [(ch, self.FMT[ch])] * n
            else:
                return None
            num = ''
        return endian, out

    def f_struct_pack(self, f, args, kw, st, node):
        I = self.I
        p = self._parse_fmt(args[0])
        if p is None:
            return [(st, I.unk('struct.pack', node))]
        endian, items = p
        if len([1 for k, _ in items if k != 'x']) != len(args) - 1:
            return I.throw(st, 'Exception', node)
        outs = [(st, [])]
        vals = iter(args[1:])
        for k, x in items:
            if k == 'x':
                outs = [(s, ps + [b'\0']) for s, ps in outs]
                continue
            v = next(vals)
            nx = []
            for s, ps in outs:
                if k == 's':
                    if isinstance(v, K) and isinstance(v.v, bytes):
                        nx.append((s, ps + [v.v[:x].ljust(x, b'\0')]))
                    else:
                        return [(st, I.unk('struct.pack', node))]
                    continue
                if not isint(v):
                    return I.throw(st, 'Exception', node) if not isinstance(v, U) else [(st, I.unk('struct.pack', node))]
                r, ex = I.catch(lambda: self.to_bytes(asn(v).p, x[0], endian, x[1], s, node))
                for e in ex:
                    I.throw(e.st, 'struct.error', node)
                nx += [(s2, ps + list(yparts(b))) for s2, b in r]
            outs = nx
        return [(s, mkbytes(ps)) for s, ps in outs]

    def f_struct_unpack(self, f, args, kw, st, node, offset=ZERO, exact=True):
        I = self.I
        p = self._parse_fmt(args[0])
        if p is None or not isbytes(args[1]):
            return [(st, I.unk('struct.unpack', node))]
        endian, items = p
        total = sum(x if k == 's' else 1 if k == 'x' else x[0] for k, x in items)
        n = self.blen(args[1])
        out = []
        c = Cond('eq0', n - offset - total) if exact else Cond('le0', offset + total - n)
        for s, ok in I.split(st, c):
            if not ok:
                I.throw(s, 'struct.error', node)
                continue
            pos = offset
            outs = [(s, [])]
            for k, x in items:
                w = x if k == 's' else 1 if k == 'x' else x[0]
                nx = []
                for s2, vs in outs:
                    for s3, y in self.yslice(args[1], pos, pos + w, s2, node):
                        if k == 'x':
                            nx.append((s3, vs))
                        elif k == 's':
                            nx.append((s3, vs + [y]))
                        else:
                            nx += [(s4, vs + [z]) for s4, z in self.from_bytes(y, endian, x[1], s3, node)]
                outs = nx
                pos = pos + w
            out += [(s2, T(vs)) for s2, vs in outs]
        return out

    def f_struct_unpack_from(self, f, args, kw, st, node):
        off = self._arg(args, kw, 2, 'offset', N(0))
        return self.f_struct_unpack(f, args, kw, st, node, off.p, False)

    def f_struct_Struct(self, f, args, kw, st, node):
        return self.I.call(self.stub('Struct'), args, kw, st, node)

    def f_struct_iter_unpack(self, f, args, kw, st, node):
        return self.I.call(self.stub('iter_unpack'), args, kw, st, node)

    def f_struct_calcsize(self, f, args, kw, st, node):
        return [(st, N(_struct.calcsize(args[0].v)))]

    # ---------------------------------------------------------------------- io
    def f_io_BytesIO(self, f, args, kw, st, node):
        I = self.I
        st = st.copy()
        if args:
            y = args[0]
            if not isbytes(y):
                if isinstance(y, U):
                    return [(st, I.unk('BytesIO', node))]
                return I.throw(st, 'TypeError', node)
            return [(st, I.new(st, FileRec(y, ZERO, (), own=True), 'file'))]
        return [(st, I.new(st, FileRec(None, ZERO, (), own=True), 'file'))]

    def _closed(self, st, v, node):
        if st.heap[v.oid].state == 'closed':
            self.I.throw(st, 'ValueError', node)
            return True
        return False

    def f_file_write(self, f, args, kw, st, node):
        I = self.I
        v = f.recv
        if self._closed(st, v, node):
            return []
        y = args[0]
        if isinstance(y, R) and isinstance(st.heap[y.oid], Lst) and st.heap[y.oid].kind == 'bytearray':
            ps = self._babytes(st.heap[y.oid].segs)
            y = mkbytes(ps) if ps is not None else I.unk('bytearray', node)
        if isinstance(y, Bi) and y.name == 'memoryview':
            y = y.data[0]
        if not isbytes(y) and not isinstance(y, U):
            return I.throw(st, 'TypeError', node)
        r = st.heap[v.oid]
        if r.own and r.src is not None:
            return self._overwrite(v, y, st, node)
        st = st.copy()
        r = st.wr(v.oid)
        I.events.append(('write', v.oid, I.loc(node)))
        r.segs = r.segs + (El(y),)
        return [(st, N(self.blen(y)) if isbytes(y) else I.unk('write', node))]

    def _overwrite(self, v, y, st, node):
        """write at the position of an in-memory file that has contents"""
        I = self.I
        r = st.heap[v.oid]
        if not isbytes(y) or not isbytes(r.src):
            st = st.copy()
            st.imp = st.imp | {'write into unknown contents'}
            return [(st, I.unk('write', node))]
        end = r.pos + self.blen(y)
        out = []
        for s, head in self.yslice(r.src, ZERO, r.pos, st, node):
            for s2, tail in self.yslice(r.src, end, None, s, node):
                s2 = s2.copy()
                if not isbytes(head) or not isbytes(tail):
                    s2.imp = s2.imp | {'write into unknown contents'}
                    head = tail = K(b'')
                q = s2.wr(v.oid)
                q.src = mkbytes(yparts(head) + yparts(y) + yparts(tail))
                q.pos = s2.facts.norm(end)
                out.append((s2, N(self.blen(y))))
        return out

    def f_file_writelines(self, f, args, kw, st, node):
        I = self.I
        out = []
        for s, segs in self.segs(args[0], st, node):
            s = s.copy()
            r = s.wr(f.recv.oid)
            I.events.append(('write', f.recv.oid, I.loc(node)))
            r.segs = r.segs + tuple(segs)
            out.append((s, NONE))
        return out

    def _content(self, r, st):
        parts = []
        for g in r.segs:
            if isinstance(g, El) and isbytes(g.v):
                parts += list(yparts(g.v))
            else:
                b = self._byteseg(g, st)
                if b is None:
                    return None
                parts += b
        return mkbytes(parts)

    def f_file_getvalue(self, f, args, kw, st, node):
        if self._closed(st, f.recv, node):
            return []
        r = st.heap[f.recv.oid]
        if r.src is not None:
            return [(st, r.src)]
        c = self._content(r, st)
        return [(st, c if c is not None else self.I.unk('getvalue', node))]

    f_file_getbuffer = f_file_getvalue

    def f_file_truncate(self, f, args, kw, st, node):
        I = self.I
        st = st.copy()
        r = st.wr(f.recv.oid)
        if r.own and not args and r.src is None:
            return [(st, N(self.blen(self._content(r, st))) if self._content(r, st) is not None else I.unk('truncate', node))]
        if r.own and r.src is None and isinstance(args[0], N) and args[0].p.ival() == 0:
            c = self._content(r, st)
            if c is not None and isinstance(c, K) and not c.v:
                return [(st, args[0])]
        if r.own and r.src is not None and isbytes(r.src) and all(isinstance(a, N) for a in args):
            p = args[0].p if args else r.pos
            out = []
            for s, y in self.yslice(r.src, ZERO, p, st, node):
                s = s.copy()
                s.wr(f.recv.oid).src = y
                out.append((s, N(p)))
            return out
        st.imp = st.imp | {'truncate'}
        return [(st, I.unk('truncate', node))]

    def f_file_read(self, f, args, kw, st, node):
        I = self.I
        v = f.recv
        if self._closed(st, v, node):
            return []
        r = st.heap[v.oid]
        if r.src is None:
            if r.own:
                return [(st, K(b''))]
            return [(st, I.unk('read', node))]
        I.events.append(('read', v.oid, I.loc(node)))
        pos = r.pos
        if not args or (isinstance(args[0], K) and args[0].v is None) or (isint(args[0]) and asn(args[0]).p.ival() is not None and asn(args[0]).p.ival() < 0):
            out = []
            for s, y in self.yslice(r.src, pos, None, st, node):
                s = s.copy()
                s.wr(v.oid).pos = self.blen(r.src)
                out.append((s, y))
            return out
        if not isint(args[0]):
            return [(st, I.unk('read', node))]
        n = asn(args[0]).p
        out = []
        for s, y in self.yslice(r.src, pos, pos + n, st, node):
            s = s.copy()
            s.wr(v.oid).pos = s.facts.norm(pos + self.blen(y)) if isbytes(y) else pos + n
            out.append((s, y))
        return out

    def f_file_seek(self, f, args, kw, st, node):
        I = self.I
        if self._closed(st, f.recv, node):
            return []
        st = st.copy()
        r = st.wr(f.recv.oid)
        if r.own and r.src is None:
            c = self._content(r, st)
            if c is not None:
                r.src, r.segs = c, ()
                r.pos = self.blen(c)
        whence = args[1].p.ival() if len(args) > 1 and isinstance(args[1], N) else 0 if len(args) == 1 else None
        if isinstance(args[0], N) and r.src is not None and isbytes(r.src) and whence in (0, 1, 2):
            p = args[0].p + (ZERO, r.pos, self.blen(r.src))[whence]
            out = []
            for s, neg in I.split(st, Cond('lt0', p)):
                if neg:
                    if whence == 0:
                        I.throw(s, 'ValueError', node)
                        continue
                    p2 = ZERO
                else:
                    p2 = s.facts.norm(p)
                for s2, past in I.split(s, Cond('lt0', self.blen(r.src) - p2)):
                    s2 = s2.copy()
                    s2.wr(f.recv.oid).pos = p2
                    if past:
                        s2.imp = s2.imp | {'seek past the end'}
                    out.append((s2, N(p2)))
            return out
        st.imp = st.imp | {'seek'}
        return [(st, I.unk('seek', node))]

    def f_file_tell(self, f, args, kw, st, node):
        r = st.heap[f.recv.oid]
        if r.src is not None:
            return [(st, N(r.pos))]
        c = self._content(r, st)
        return [(st, N(self.blen(c)) if c is not None else self.I.unk('tell', node))]

    def f_file_close(self, f, args, kw, st, node):
        st = st.copy()
        st.wr(f.recv.oid).state = 'closed'
        return [(st, NONE)]

    def f_file_flush(self, f, args, kw, st, node):
        return [(st, NONE)]

    def f_file_readable(self, f, args, kw, st, node):
        return [(st, TRUE)]

    f_file_writable = f_file_readable

    # -------------------------------------------------------------------- misc
    def f_copy_copy(self, f, args, kw, st, node):
        I = self.I
        v = args[0]
        st = st.copy()
        if not isinstance(v, R):
            return [(st, v)]
        r = st.heap[v.oid]
        if isinstance(r, Obj):
            m = I.contracts.get(r.cls.qual)
            c = r.cls.lookup('__copy__')
            if c is not None:
                return I.call(Bm(v, c), [], {}, st, node)
            return [(st, I.new(st, Obj(r.cls, r.f)))]
        if isinstance(r, (Lst, Dct)):
            return [(st, I.new(st, r.copy()))]
        return [(st, I.unk('copy', node))]

    def f_copy_deepcopy(self, f, args, kw, st, node):
        I = self.I
        st = st.copy()

        def deep(v, memo):
            if isinstance(v, T):
                return T([deep(i, memo) for i in v.items])
            if not isinstance(v, R):
                return v
            if v.oid in memo:
                return memo[v.oid]
            r = st.heap[v.oid]
            if isinstance(r, Obj):
                n = memo[v.oid] = I.new(st, Obj(r.cls))
                nf = {k: deep(x, memo) for k, x in r.f.items()}
                st.heap[n.oid] = Obj(r.cls, nf)
                return n
            if isinstance(r, Lst):
                n = memo[v.oid] = I.new(st, Lst(r.kind, ()))
                st.heap[n.oid] = Lst(r.kind, [El(deep(g.v, memo)) if isinstance(g, El) else g for g in r.segs])
                return n
            if isinstance(r, Dct):
                n = memo[v.oid] = I.new(st, Dct((), r.default, r.multi, r.kind))
                st.wr(n.oid).segs = tuple(El(deep(g.v, memo)) if isinstance(g, El) else g for g in r.segs)
                return n
            return I.unk('deepcopy', node)
        return [(st, deep(args[0], {}))]

    def f_dataclasses_dataclass(self, f, args, kw, st, node):
        return [(st, Bi('dataclasses.dataclass', None, [K(1)]))]

    def f_dataclasses_field(self, f, args, kw, st, node):
        if 'default_factory' in kw:
            return [(st, Bi('dataclasses.fieldobj', kw['default_factory']))]
        return [(st, Bi('dataclasses.fieldobj', None, [kw['default']] if 'default' in kw else []))]

    def f_dataclasses_replace(self, f, args, kw, st, node):
        v = args[0]
        if isobj(v, st):
            r = st.heap[v.oid]
            return self.I.construct(r.cls, [], {**r.f, **kw}, st, node)
        return self.I.throw(st, 'TypeError', node)

    def f_dataclasses_astuple(self, f, args, kw, st, node):
        if isobj(args[0], st):
            return [(st, T(st.heap[args[0].oid].f.values()))]
        return self.I.throw(st, 'TypeError', node)

    def f_namedtuple__replace(self, f, args, kw, st, node):
        r = st.heap[f.recv.oid]
        return self.I.construct(r.cls, [], {**r.f, **kw}, st, node)

    def f_namedtuple__asdict(self, f, args, kw, st, node):
        r = st.heap[f.recv.oid]
        st = st.copy()
        return [(st, self.I.new(st, Dct([El(T([K(k), x])) for k, x in r.f.items()])))]

    def f_collections_namedtuple(self, f, args, kw, st, node):
        I = self.I
        name, fields = args[0], args[1]
        names = None
        if isinstance(fields, K):
            names = fields.v.replace(',', ' ').split()
        else:
            for s, items in I.unpack_all(fields, st, node):
                if all(isinstance(i, K) for i in items):
                    names = [i.v for i in items]
        if names is None or not isinstance(name, K):
            return [(st, I.unk('namedtuple', node))]
        mod = I.stack[-1].mod if I.stack else 'module'
        info = ClassInfo(name.v, f'{mod}.{name.v}', mod, node)
        info.namedtuple = True
        info.fields = [(n, None) for n in names]
        d = kw.get('defaults')
        if d is not None:
            for s, items in I.unpack_all(d, st, node):
                for (n, _), x in zip(reversed(list(info.fields)), reversed(items)):
                    info.fields = [(a, x if a == n else b) for a, b in info.fields]
        return [(st, Cl(info))]

    def f_fractions_Fraction(self, f, args, kw, st, node):
        I = self.I
        m = I.contracts.get('fractions.Fraction')
        if m is not None:
            return m.construct(I, st, args, kw, node)
        return [(I.havoc(st, args, kw), I.unk('Fraction', node))]

    def f_gen_close(self, f, args, kw, st, node):
        return [(st, NONE)]

    def f_gen___next__(self, f, args, kw, st, node):
        return self.call(Bi('builtins.next'), [f.recv], {}, st, node)

    def f_gen___iter__(self, f, args, kw, st, node):
        return [(st, f.recv)]

    def f_exc_with_traceback(self, f, args, kw, st, node):
        return [(st, f.recv)]

    def f_exc_add_note(self, f, args, kw, st, node):
        return [(st, NONE)]
