"""Dictionaries."""
from lib_ops import *
from poly import subst


class LibDict(LibOps):
    def const_key(self, k):
        return isinstance(k, K) or (isinstance(k, N) and k.p.is_const()) or (isinstance(k, T) and all(self.const_key(i) for i in k.items))

    def keyeq(self, a, b, st, node):
        """[(state, bool)]"""
        if a.key == b.key:
            return [(st, True)]
        if self.const_key(a) and self.const_key(b):
            x = a.v if isinstance(a, K) else a.p.ival() if isinstance(a, N) else a.key
            y = b.v if isinstance(b, K) else b.p.ival() if isinstance(b, N) else b.key
            return [(st, x == y)]
        out = []
        for s, v in self.compare('==', a, b, st, node):
            out += self.I.truth(v, s, node)
        return out

    def str_partition(self, k, st):
        """split on the value of a regex group with a small finite language"""
        if isinstance(k, S) and len(k.parts) == 1 and k.parts[0][0] == 'sym' and getattr(k.parts[0][1], 'kind', None) == 'grp':
            g = k.parts[0][1]
            cur = st.facts.bools.get('strval:' + g.key)
            if cur is not None:
                return [(st, K(cur))]
            import regex
            lang = regex.group_language(g)
            if lang is not None and len(lang) <= 26:
                out = []
                for w in sorted(lang):
                    s = st.copy()
                    f = s.facts.copy()
                    f.bools['strval:' + g.key] = w
                    f.log = f.log + (Cond('b', Atom('strval', (g, w), 'bool')),)
                    s.facts = f
                    out.append((s, K(w)))
                return out
        return None

    def dict_get(self, st, ref, k, node, want=False):
        """[(state, value or None)]; want: the value is going to be used"""
        I = self.I
        r = st.heap[ref.oid]
        if isinstance(k, U):
            s = st.copy()
            s.imp = s.imp | {k.why}
            return [(s, k), (s, None)]
        if isinstance(k, B):
            return [x for s, t in I.truth(k, st, node) for x in self.dict_get(s, ref, K(t), node, want)]
        if isinstance(k, K) and isinstance(k.v, bool):
            k = N(int(k.v))
        sp = self.str_partition(k, st)
        if sp is not None:
            return [x for s, kk in sp for x in self.dict_get(s, ref, kk, node, want)]
        if isobj(k, st):
            h = I.contracts.get(st.heap[k.oid].cls.qual)
            if h is None and st.heap[k.oid].cls.lookup('__hash__') is None and st.heap[k.oid].cls.lookup('__eq__') is not None:
                return I.throw(st, 'TypeError', node)
        if r.multi:
            return self.multi_get(st, ref, k, node)
        # constant table and one finite key: partition by result
        if isinstance(k, N) and not k.p.is_const() and r.segs and all(isinstance(g, El) and self.const_key(g.v.items[0]) for g in r.segs):
            p = st.facts.norm(k.p)
            if p.ival() is not None:
                return self.dict_get(st, ref, N(p), node, want)
            one = st.facts._single_finite(p)
            if one is not None:
                a, dom = one
                tab = {g.v.items[0].p.ival(): g.v.items[1] for g in r.segs if isinstance(g.v.items[0], N)}
                groups = {}
                try:
                    for v in dom:
                        x = tab.get(int(eval_poly(p, {a.key: v})))
                        kk = None if x is None else (x.key if want else 'found')
                        groups.setdefault(kk, (x, []))[1].append(v)
                    out = []
                    for kk, (x, vs) in groups.items():
                        out.append((self.restrict(st, a, vs) if len(groups) > 1 else st, x))
                    return out
                except NoValue:
                    pass
        out = []
        cur = [st]
        for g in reversed(r.segs):
            nx = []
            for s in cur:
                if isinstance(g, El):
                    for s2, e in self.keyeq(k, g.v.items[0], s, node):
                        if e:
                            out.append((s2, g.v.items[1]))
                        else:
                            nx.append(s2)
                elif isinstance(g, Del):
                    for s2, e in self.keyeq(k, g.v, s, node):
                        if e:
                            out.append((s2, None))
                        else:
                            nx.append(s2)
                else:
                    c = Cond('b', Atom('mem', (g.key, k.key), 'bool'))
                    for s2, e in I.split(s, c):
                        if not e:
                            nx.append(s2)
                            continue
                        out += self.star_lookup(s2, g, k, node)
            cur = nx
        return out + [(s, None) for s in cur]

    def star_lookup(self, st, g, k, node):
        """the values a Star of (key, value) pairs can hold under key k"""
        import loops
        I = self.I
        out = []
        if not isinstance(g, Star):
            s = st.copy()
            s.imp = s.imp | {'dictionary of unknown contents'}
            return [(s, I.unk('dictionary lookup', node))]
        for n, a in enumerate(g.alts):
            for e in a.elems:
                if not isinstance(e, T):
                    s = st.copy()
                    s.imp = s.imp | {'dictionary of unknown contents'}
                    out.append((s, I.unk('dictionary lookup', node)))
                    continue
                inst = loops.instantiate(I, st, g.dom, a.conds, [e], tag='@' + k.key)
                if inst is None:
                    continue
                s, (e2,) = inst
                for s2, same in self.keyeq(e2.items[0], k, s, node):
                    if same:
                        out.append((s2, e2.items[1]))
        if len(out) > 1:
            for s, _ in out:
                pass
        return out

    def multi_get(self, st, ref, k, node):
        I = self.I
        r = st.heap[ref.oid]
        s = st.copy()
        v = I.new(s, View(ref.oid, k))
        segs = self.view_segs(s, s.heap[v.oid], may=True)
        if not segs:
            return [(s, None)]
        if any(isinstance(g, El) for g in segs):
            return [(s, v)]
        out = []
        for s2, e in I.split(s, Cond('b', Atom('mem', (ref.oid + '|' + '|'.join(g.key for g in segs), k.key), 'bool'))):
            out.append((s2, v if e else None))
        return out

    def view_segs(self, st, r, may=False):
        """the list stored under r.k of a multi dictionary"""
        d = st.heap[r.doid]
        out = []
        for g in d.segs:
            if isinstance(g, El):
                e = None
                if g.v.items[0].key == r.k.key:
                    e = True
                elif self.const_key(g.v.items[0]) and self.const_key(r.k):
                    e = False
                elif isinstance(r.k, N) and isinstance(g.v.items[0], N):
                    e = st.facts.decide(Cond('eq0', r.k.p - g.v.items[0].p))
                if e is False:
                    continue
                if e is True:
                    out.append(El(g.v.items[1]))
                else:
                    out.append(Star('maybe', [Alt([Cond('eq0', r.k.p - g.v.items[0].p)] if isinstance(r.k, N) and isinstance(g.v.items[0], N) else [], [g.v.items[1]])]))
            elif isinstance(g, Star):
                alts = []
                for a in g.alts:
                    for e in a.elems:
                        if isinstance(e, T) and isinstance(e.items[0], N) and isinstance(r.k, N):
                            alts.append(Alt(a.conds + (Cond('eq0', e.items[0].p - r.k.p),), [e.items[1]]))
                        elif isinstance(e, T):
                            alts.append(Alt(a.conds, [e.items[1]]))
                out.append(Star(g.dom, alts))
            else:
                out.append(g)
        return out

    def dict_default(self, st, ref, k, node):
        """missing key of a defaultdict"""
        I = self.I
        r = st.heap[ref.oid]
        st = st.copy()
        if r.multi:
            return [(st, I.new(st, View(ref.oid, k)))]
        out = []
        for s, v in I.call(r.default, [], {}, st, node):
            for s2 in self.dict_set(s, ref, k, v, node):
                out.append((s2, v))
        return out

    def dict_set(self, st, ref, k, v, node):
        I = self.I
        if isinstance(k, K) and isinstance(k.v, bool):
            k = N(int(k.v))
        sp = self.str_partition(k, st)
        if sp is not None:
            return [x for s, kk in sp for x in self.dict_set(s, ref, kk, v, node)]
        self.note_write(ref, st, node)
        r = st.heap[ref.oid]
        if r.multi:
            if isinstance(v, R) and isinstance(st.heap.get(v.oid), Lst) and not st.heap[v.oid].segs and not r.segs:
                return [st]
            s = st.copy()
            s.imp = s.imp | {'assignment into a dictionary of lists'}
            return [s]
        if isobj(k, st) and st.heap[k.oid].cls.lookup('__hash__') is None and st.heap[k.oid].cls.lookup('__eq__') is not None:
            I.throw(st, 'TypeError', node)
            return []
        done = []
        cur = [st]
        els = [(i, g) for i, g in enumerate(r.segs) if isinstance(g, El)]
        for i, g in els:
            nx = []
            for s in cur:
                for s2, e in self.keyeq(k, g.v.items[0], s, node):
                    if e:
                        s2 = s2.copy()
                        q = s2.wr(ref.oid)
                        segs = list(q.segs)
                        segs[i] = El(T([g.v.items[0], v]))
                        q.segs = tuple(segs)
                        done.append(s2)
                    else:
                        nx.append(s2)
            cur = nx
        for s in cur:
            s = s.copy()
            q = s.wr(ref.oid)
            q.segs = q.segs + (El(T([k, v])),)
            done.append(s)
        return done

    def dict_del(self, st, ref, k, node):
        """remove a key known to be present"""
        r = st.heap[ref.oid]
        done, cur = [], [st]
        if not r.multi:
            for i, g in enumerate(r.segs):
                if not isinstance(g, El):
                    continue
                nx = []
                for s in cur:
                    for s2, e in self.keyeq(k, g.v.items[0], s, node):
                        if e:
                            s2 = s2.copy()
                            q = s2.wr(ref.oid)
                            q.segs = tuple(x for j, x in enumerate(q.segs) if j != i)
                            if any(isinstance(x, Star) for x in q.segs):
                                q.segs = q.segs + (Del(k),)
                            done.append(s2)
                        else:
                            nx.append(s2)
                cur = nx
        for s in cur:
            s = s.copy()
            q = s.wr(ref.oid)
            q.segs = q.segs + (Del(k),)
            done.append(s)
        return done

    def dict_keys(self, st, r, what='keys'):
        out = []
        if r.multi:
            return self.multi_items(st, r, what)
        for g in r.segs:
            if isinstance(g, El):
                out.append(El(self._pick(g.v, what)))
            elif isinstance(g, Del):
                st.imp = st.imp | {'iteration over a dictionary after deletions'}
            elif isinstance(g, Star):
                out.append(Star(g.dom, [Alt(a.conds, [self._pick(e, what) for e in a.elems]) for a in g.alts]))
            else:
                out.append(g)
        return out

    def _pick(self, e, what):
        if not isinstance(e, T):
            return e
        return e.items[0] if what == 'keys' else e.items[1] if what == 'values' else e

    def multi_items(self, st, r, what):
        oid = next(o for o, x in st.heap.items() if x is r)
        out = []
        seen = {}
        for g in r.segs:
            if isinstance(g, El):
                k = g.v.items[0]
                if k.key in seen:
                    continue
                seen[k.key] = True
                v = View(oid, k)
                st.heap[f'view:{oid}:{k.key}'] = v
                ref = R(f'view:{oid}:{k.key}')
                out.append(El(k if what == 'keys' else ref if what == 'values' else T([k, ref])))
            elif isinstance(g, Star):
                dom = f'keys:{oid}'
                c = Atom('el', (dom, 'key'))
                k = N(Poly.atom(c))
                v = View(oid, k)
                st.heap[f'view:{oid}:{k.key}'] = v
                ref = R(f'view:{oid}:{k.key}')
                conds = []
                los, his = [], []
                for a in g.alts:
                    for e in a.elems:
                        if isinstance(e, T) and isinstance(e.items[0], N):
                            f = st.facts
                            for cd in a.conds:
                                f2 = f.assume(cd)
                                if f2 is None:
                                    break
                                f = f2
                            l, h = f.bounds(e.items[0].p)
                            los.append(l)
                            his.append(h)
                if los and min(los) > -INF:
                    conds.append(Cond('le0', Poly.const(min(los)) - Poly.atom(c)))
                if his and max(his) < INF:
                    conds.append(Cond('le0', Poly.atom(c) - Poly.const(max(his))))
                out.append(Star(dom, [Alt(conds, [k if what == 'keys' else ref if what == 'values' else T([k, ref])])]))
        return out

    # list-like updates
    def list_add(self, st, ref, new, node, front=False):
        """append segments to a list or to a list inside a multi dictionary -> state"""
        self.note_write(ref, st, node)
        r = st.heap[ref.oid]
        st = st.copy()
        if isinstance(r, View):
            d = st.wr(r.doid)
            add = []
            for g in new:
                if isinstance(g, El):
                    add.append(El(T([r.k, g.v])))
                elif isinstance(g, Star):
                    add.append(Star(g.dom, [Alt(a.conds, [T([r.k, e]) for e in a.elems]) for a in g.alts]))
                else:
                    st.imp = st.imp | {'list in a dictionary'}
            d.segs = d.segs + tuple(add)
            return st
        q = st.wr(ref.oid)
        if q.kind in ('set', 'frozenset'):
            have = {g.v.key for g in q.segs if isinstance(g, El)}
            new = [g for g in new if not (isinstance(g, El) and g.v.key in have)]
        q.segs = tuple(new) + q.segs if front else q.segs + tuple(new)
        return st

    def list_extend(self, st, ref, v, node):
        out = []
        for s, segs in self.segs(v, st, node):
            out.append((self.list_add(s, ref, segs, node), NONE))
        return out
