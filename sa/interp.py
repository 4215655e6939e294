"""Forward abstract interpreter over the syntax tree of the analysed package.

Disjunctive (trace partitioned) states; calls are analysed in context; loops over
unknown data are solved to an inductive fixpoint (loops.py).  Library functions have
models (library.py); classes and functions can be replaced by contracts whose
obligations are discharged by other properties (contracts.py).
"""
import ast
import builtins
import math
from fractions import Fraction

from poly import Poly, Atom, INF, ZERO, ONE, as_poly, free_atoms, show, sym, EVAL, evi
from facts import Facts, Cond, cmp_cond
from values import *
from program import ClassInfo, local_names, is_generator, AnalysisBroken

NEXT, BREAK, CONT, RET, STOP = 'next', 'break', 'continue', 'return', 'stop'

EVAL['idiv'] = lambda a, e: evi(a[0], e) // evi(a[1], e)


class Budget(Exception):
    pass


def shallow_const(v, st):
    """v is one concrete value (an object: every field is)"""
    if isinstance(v, R):
        o = st.heap.get(v.oid)
        if isinstance(o, Obj):
            return all(isinstance(x, R) or shallow_const(x, st) for x in o.f.values())
        return isinstance(o, (Lst, Dct))
    if isinstance(v, N):
        return v.p.is_const()
    if isinstance(v, T):
        return all(shallow_const(x, st) for x in v.items)
    return not isinstance(v, (F, B, U, Y))


class Layered:
    """a large heap: a shared lower layer and the changes since"""
    __slots__ = ('low', 'top')

    def __init__(self, low, top):
        self.low, self.top = low, top

    def copy(self):
        if len(self.top) > 48:
            self.low, self.top = {**self.low, **self.top}, {}
        return Layered(self.low, dict(self.top))

    def __getitem__(self, k):
        r = self.top.get(k)
        return self.low[k] if r is None else r

    def __setitem__(self, k, v):
        self.top[k] = v

    def get(self, k, d=None):
        r = self.top.get(k)
        return self.low.get(k, d) if r is None else r

    def __contains__(self, k):
        return k in self.top or k in self.low

    def items(self):
        return {**self.low, **self.top}.items()

    def __iter__(self):
        return iter({**self.low, **self.top})

    def __len__(self):
        return len({**self.low, **self.top})


class State:
    __slots__ = ('frames', 'heap', 'facts', 'imp', 'where')

    def __init__(self):
        self.frames, self.heap, self.facts, self.imp, self.where = {}, {}, Facts(), frozenset(), None

    def copy(self):
        s = State.__new__(State)
        h = self.heap
        if type(h) is dict:
            if len(h) < 400:
                h = dict(h)
            else:
                self.heap = Layered(h, {})
                h = Layered(h, {})
        else:
            h = h.copy()
        s.frames, s.heap, s.facts, s.imp, s.where = dict(self.frames), h, self.facts, self.imp, self.where
        return s

    def assume(self, c):
        """copy with c assumed or None"""
        f = self.facts.assume(c)
        if f is None:
            return None
        s = self.copy()
        s.facts = f
        return s

    def wr(self, oid):
        """record of oid, writable"""
        r = self.heap[oid].copy()
        self.heap[oid] = r
        return r


class Exc:
    """a raise outcome"""
    __slots__ = ('st', 'cls', 'args', 'loc', 'node', 'implicit')

    def __init__(self, st, cls, args, loc, implicit):
        self.st, self.cls, self.args, self.loc, self.implicit = st, cls, args, loc, implicit

    @property
    def name(self):
        return self.cls.name if isinstance(self.cls, ClassInfo) else self.cls

    def isa(self, name):
        """is the exception an instance of the named (builtin or package) class"""
        if isinstance(self.cls, ClassInfo):
            if self.cls.name == name or any(c.name == name for c in self.cls.mro()):
                return True
            return self.cls.is_subclass(name)
        a, b = getattr(builtins, self.cls, None), getattr(builtins, name, None)
        return isinstance(a, type) and isinstance(b, type) and issubclass(a, b)

    def __repr__(self):
        return f'{self.name} at {self.loc}'


INPLACE = {'+': '__iadd__', '-': '__isub__', '*': '__imul__', '/': '__itruediv__', '//': '__ifloordiv__', '%': '__imod__', '**': '__ipow__',
           '<<': '__ilshift__', '>>': '__irshift__', '&': '__iand__', '|': '__ior__', '^': '__ixor__', '@': '__imatmul__'}


class Interp:
    def __init__(self, prog, contracts=None, fcontracts=None, budget=400000):
        self.prog = prog
        self.contracts = contracts or {}     # class qualname -> model
        self.fcontracts = fcontracts or {}   # function qualname -> handler
        self.n = 0
        self.sinks = [[]]
        self.stack = []          # (Fn, lineno)
        self.late = None
        self.active = []         # recursion detection keys
        self.yielders = {}
        self.visited = set()     # functions analysed
        self.calls = 0
        self.steps = 0
        self.budget = budget
        self.loops = []          # finished loop records
        self.events = []         # (kind, data...) recorded by contracts
        self.finfo = {}
        self.loading = set()
        self.limits = []         # reasons for lost precision
        self.shared = set()      # oids that exist after import
        self.mutated = []        # (oid, what, loc) writes to shared objects
        self.addr = {}           # addresses of objects whose identity was asked for
        self.frozen_import = False
        self.globals_written = []
        self.hooks = {}
        self.unk_calls = []
        self.draws = None        # what random functions return, if the scenario fixes it
        self.maxloop = 0         # iterations a scenario may need, if many
        self.diverge = []        # loops that are never left
        self.cut = []            # loops followed only up to the bound
        self.fresh = 0
        import library
        import loops
        import contracts as _c
        self.lib = library.Library(self)
        self.base = State()

    # ------------------------------------------------------------------ setup
    def load_all(self):
        for m in sorted(self.prog.modules, key=lambda m: (m != '_lib', m)):
            self.load(m)
        self.shared = set(self.base.heap)
        self.frozen_import = True
        self.import_exc = list(self.sinks[0])
        self.sinks = [[]]
        return self

    def load(self, name):
        fid = 'mod:' + name
        if fid in self.base.frames or name in self.loading:
            return fid
        m = self.prog.modules[name]
        # parents first
        if '.' in name:
            par = name.rsplit('.', 1)[0]
            if par in self.prog.modules:
                self.load(par)
                if fid in self.base.frames:
                    return fid
        self.loading.add(name)
        st = self.base
        st.frames[fid] = {'$mod': name, '$parent': None, '$fn': None, '__name__': K(name), '__file__': K(m.path)}
        outs = self.block(m.tree.body, st, fid)
        fin = [s for f, s, v in outs if f == NEXT]
        if len(fin) != 1:
            if not fin:
                raise AnalysisBroken(f'module {name}: top level has no normal completion')
            self.limit(f'module {name}: top level has {len(fin)} outcomes')
        self.base = fin[0]
        return fid

    def limit(self, why):
        if why not in self.limits:
            self.limits.append(why)

    def unk(self, why, node=None):
        w = why + (f' at {self.loc(node)}' if node is not None else '')
        self.limit(w)
        return U(w)

    def new(self, st, rec, tag='o'):
        self.n += 1
        oid = f'{tag}{self.n}'
        st.heap[oid] = rec
        return R(oid)

    def loc(self, node):
        mod = fn = None
        if self.stack:
            f = self.stack[-1]
            mod, fn = f.mod, self.fname(f)
        if mod is None:
            return f'line {getattr(node, "lineno", "?")}'
        path = self.prog.modules[mod].path if mod in self.prog.modules else mod
        return f'{path}:{getattr(node, "lineno", "?")} ({fn})'

    @staticmethod
    def fname(f):
        return (f.cls.name + '.' if f.cls else '') + f.name

    @staticmethod
    def fqual(f):
        return f.mod + '.' + (f.cls.name + '.' if f.cls else '') + f.name

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget(f'analysis budget of {self.budget} steps exceeded')
        if not self.steps & 4095 and self.late is not None and self.late():
            raise Budget('time limit')

    # ----------------------------------------------------------------- raising
    def throw(self, st, cls, node, args=(), implicit=True):
        self.sinks[-1].append(Exc(st, cls, tuple(args), self.loc(node), implicit))
        return []

    def catch(self, thunk):
        """run thunk with a fresh sink -> (result, exceptions)"""
        self.sinks.append([])
        try:
            r = thunk()
        finally:
            s = self.sinks.pop()
        return r, s

    # ---------------------------------------------------------------- splitting
    def split(self, st, c):
        """[(state, bool)] for a condition"""
        d = st.facts.decide(c)
        if d is not None:
            return [(st, d)]
        out = []
        a = st.assume(c)
        b = st.assume(c.neg())
        if a is not None:
            out.append((a, True))
        if b is not None:
            out.append((b, False))
        return out

    def truth(self, v, st, node=None):
        if isinstance(v, K):
            return [(st, bool(v.v))]
        if isinstance(v, N):
            return self.split(st, Cond('ne0', v.p))
        if isinstance(v, B):
            return self.split(st, v.c)
        if isinstance(v, F):
            return [(s, not b) for s, b in self.split(st, Cond('feq', v.a, 0.0))]
        if isinstance(v, T):
            return [(st, bool(v.items))]
        if isinstance(v, (Fn, Cl, Bm, Bi, Mo)):
            return [(st, True)]
        if isinstance(v, S):
            if any(isinstance(p, str) for p in v.parts) or any(p[0] == 'fmt' for p in v.parts):
                return [(st, True)]
            return self.lib.str_nonempty(st, v)
        if isinstance(v, Y):
            return self.split(st, Cond('ne0', self.lib.blen(v)))
        if isinstance(v, R):
            r = st.heap[v.oid]
            if isinstance(r, Lst) and r.kind == 'iter':
                return [(st, True)]
            if isinstance(r, (Lst, Dct, View)):
                return self.lib.nonempty(st, v)
            if isinstance(r, Obj):
                m = self.contracts.get(r.cls.qual)
                if m is not None and hasattr(m, 'truth'):
                    return m.truth(self, st, v)
                for dn in ('__bool__', '__len__'):
                    f = r.cls.lookup(dn)
                    if f is not None:
                        out = []
                        for s, x in self.call(Bm(v, f), [], {}, st, node):
                            out += self.truth(x, s, node)
                        return out
            return [(st, True)]
        if isinstance(v, U):
            c = Cond('b', Atom('unknown', (v.key,), 'bool'))
            out = self.split(st, c)
            if len(out) > 1:
                for s, _ in out:
                    s.imp = s.imp | {v.why}
            return out
        return [(st, True)]

    # -------------------------------------------------------------------- names
    def info(self, fn):
        i = self.finfo.get(id(fn))
        if i is None:
            loc = local_names(fn)
            gl, nl = set(), set()
            body = fn.body if isinstance(fn.body, list) else []

            def walk(n):
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    return
                if isinstance(n, ast.Global):
                    gl.update(n.names)
                if isinstance(n, ast.Nonlocal):
                    nl.update(n.names)
                for c in ast.iter_child_nodes(n):
                    walk(c)
            for s in body:
                walk(s)
            nested = any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for s in body for x in ast.walk(s))
            i = (loc, gl, nl, nested, is_generator(fn), fn)
            self.finfo[id(fn)] = i
        return i

    def getname(self, name, st, fid, node):
        f = fid
        first = True
        while f is not None:
            fr = st.frames[f]
            if name in fr:
                if not (first is False and fr.get('$class')):
                    v = fr[name]
                    return [(st, v)]
            elif first and fr.get('$fn') is not None and name in self.info(fr['$fn'])[0]:
                return self.throw(st, 'UnboundLocalError', node)
            first = False
            nf = fr.get('$parent')
            if nf is None and not f.startswith('mod:'):
                nf = 'mod:' + fr['$mod']
            f = nf
        if name in ('True', 'False', 'None'):
            return [(st, K({'True': True, 'False': False, 'None': None}[name]))]
        if hasattr(builtins, name):
            return [(st, Bi('builtins.' + name))]
        if name in ('__debug__',):
            return [(st, TRUE)]
        return self.throw(st, 'NameError', node)

    def setname(self, name, v, st, fid):
        fr = st.frames[fid]
        fn = fr.get('$fn')
        if fn is not None:
            loc, gl, nl = self.info(fn)[:3]
            if name in gl:
                fid = 'mod:' + fr['$mod']
                if self.frozen_import:
                    self.globals_written.append((fr['$mod'], name, self.loc(fn)))
            elif name in nl:
                f = fr['$parent']
                while f is not None and name not in st.frames[f]:
                    f = st.frames[f].get('$parent')
                if f is not None:
                    fid = f
        elif fr.get('$comp'):
            pass
        st.frames[fid] = {**st.frames[fid], name: v}

    def newframe(self, st, mod, parent, fn=None, **kw):
        self.n += 1
        fid = f'fr{self.n}'
        st.frames[fid] = {'$mod': mod, '$parent': parent, '$fn': fn, **kw}
        return fid

    # -------------------------------------------------------------- expressions
    def ev(self, node, st, fid):
        self.tick()
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            return [(st, self.unk('expression ' + type(node).__name__, node))]
        return m(node, st, fid)

    def evs(self, nodes, st, fid):
        outs = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in outs:
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s, fid):
                        for s3, items in self.unpack_all(v, s2, n):
                            nxt.append((s3, vs + items))
                else:
                    for s2, v in self.ev(n, s, fid):
                        nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def unpack_all(self, v, st, node):
        """elements of a value of known length"""
        out = []
        for s, segs in self.lib.segs(v, st, node):
            if all(isinstance(g, El) for g in segs):
                out.append((s, [g.v for g in segs]))
            else:
                out.append((s, [self.unk('unpacking a sequence of unknown length', node)]))
        return out

    def ev_Constant(self, n, st, fid):
        v = n.value
        if isinstance(v, int) and not isinstance(v, bool):
            return [(st, N(v))]
        return [(st, K(v))]

    def ev_Name(self, n, st, fid):
        return self.getname(n.id, st, fid, n)

    def ev_Tuple(self, n, st, fid):
        return [(s, T(vs)) for s, vs in self.evs(n.elts, st, fid)]

    def ev_List(self, n, st, fid):
        out = []
        for s, vs in self.evs(n.elts, st, fid):
            out.append((s, self.new(s, Lst('list', [El(v) for v in vs]))))
        return out

    def ev_Set(self, n, st, fid):
        out = []
        for s, vs in self.evs(n.elts, st, fid):
            out.append((s, self.new(s, Lst('set', [El(v) for v in {v.key: v for v in vs}.values()]))))
        return out

    def ev_Dict(self, n, st, fid):
        outs = [(st, [])]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, es in outs:
                if k is None:
                    for s2, x in self.ev(v, s, fid):
                        r = s2.heap.get(x.oid) if isinstance(x, R) else None
                        if isinstance(r, Dct) and not r.multi:
                            nxt.append((s2, es + list(r.segs)))
                        else:
                            nxt.append((s2, es + [El(T([self.unk('** of unknown', n), self.unk('** of unknown', n)]))]))
                else:
                    for s2, (kv, vv) in self.evs([k, v], s, fid):
                        nxt.append((s2, [e for e in es if not (isinstance(e, El) and e.v.items[0].key == kv.key)] + [El(T([kv, vv]))]))
            outs = nxt
        return [(s, self.new(s, Dct(es))) for s, es in outs]

    def ev_JoinedStr(self, n, st, fid):
        outs = [(st, [])]
        for p in n.values:
            nxt = []
            for s, parts in outs:
                if isinstance(p, ast.Constant):
                    nxt.append((s, parts + [p.value]))
                    continue
                for s2, v in self.ev(p.value, s, fid):
                    specs = [(s2, '')]
                    if p.format_spec is not None:
                        specs = []
                        for s3, fv in self.ev(p.format_spec, s2, fid):
                            specs.append((s3, fv.v if isinstance(fv, K) else None))
                    for s3, spec in specs:
                        if spec is None:
                            nxt.append((s3, parts + [('fmt', v, -1, 'dynamic')]))
                            continue
                        for s4, ps in self.lib.fmt(s3, v, p.conversion, spec, n):
                            nxt.append((s4, parts + ps))
            outs = nxt
        return [(s, mkstr(ps)) for s, ps in outs]

    def ev_FormattedValue(self, n, st, fid):
        return self.ev_JoinedStr(ast.JoinedStr(values=[n]), st, fid)

    def ev_Attribute(self, n, st, fid):
        out = []
        for s, v in self.ev(n.value, st, fid):
            out += self.getattr_(v, n.attr, s, n)
        return out

    def ev_BoolOp(self, n, st, fid):
        outs = []
        cur = [st]
        for i, e in enumerate(n.values):
            nxt = []
            for s in cur:
                for s2, v in self.ev(e, s, fid):
                    if i == len(n.values) - 1:
                        outs.append((s2, v))
                        continue
                    for s3, b in self.truth(v, s2, e):
                        if b == isinstance(n.op, ast.And):
                            nxt.append(s3)
                        else:
                            outs.append((s3, K(b) if isinstance(v, B) else v))
            cur = nxt
        return outs

    def ev_UnaryOp(self, n, st, fid):
        out = []
        for s, v in self.ev(n.operand, st, fid):
            if isinstance(n.op, ast.Not):
                if isinstance(v, B):
                    out.append((s, B(v.c.neg())))
                else:
                    for s2, b in self.truth(v, s, n):
                        out.append((s2, K(not b)))
            else:
                op = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(n.op)]
                out += self.unary(op, v, s, n)
        return out

    def unary(self, op, v, s, n):
        if isinstance(v, K) and isinstance(v.v, bool):
            v = N(int(v.v))
        if isinstance(v, N):
            return [(s, N(-v.p) if op == '-' else v if op == '+' else N(-v.p - 1))]
        if isinstance(v, K) and isinstance(v.v, float):
            return [(s, K(-v.v) if op == '-' else v)]
        if isinstance(v, F):
            return [(s, F(Atom('fneg', (v.a,), 'float')) if op == '-' else v)]
        if isinstance(v, R) and isinstance(s.heap[v.oid], Obj):
            d = {'-': '__neg__', '+': '__pos__', '~': '__invert__'}[op]
            f = s.heap[v.oid].cls.lookup(d)
            if f is not None:
                return self.call(Bm(v, f), [], {}, s, n)
            return self.throw(s, 'TypeError', n)
        if isinstance(v, U):
            return [(s, v)]
        return self.throw(s, 'TypeError', n)

    def ev_BinOp(self, n, st, fid):
        out = []
        op = OPS[type(n.op)]
        for s, (a, b) in self.evs([n.left, n.right], st, fid):
            out += self.binop(op, a, b, s, n)
        return out

    def binop(self, op, a, b, st, node):
        return self.lib.binop(op, a, b, st, node)

    def ev_Compare(self, n, st, fid):
        outs = []
        cur = [(st, None)]
        left = None
        res = []
        for s, lv in self.ev(n.left, st, fid):
            res += self._cmp_chain(n, 0, lv, s, fid)
        return res

    def _cmp_chain(self, n, i, lv, st, fid):
        out = []
        for s, rv in self.ev(n.comparators[i], st, fid):
            for s2, b in self.compare(CMPS[type(n.ops[i])], lv, rv, s, n):
                if i == len(n.ops) - 1:
                    out.append((s2, b))
                    continue
                for s3, t in self.truth(b, s2, n):
                    if t:
                        out += self._cmp_chain(n, i + 1, rv, s3, fid)
                    else:
                        out.append((s3, FALSE))
        return out

    def compare(self, op, a, b, st, node):
        return self.lib.compare(op, a, b, st, node)

    def ev_IfExp(self, n, st, fid):
        out = []
        for s, v in self.ev(n.test, st, fid):
            for s2, b in self.truth(v, s, n.test):
                out += self.ev(n.body if b else n.orelse, s2, fid)
        return out

    def ev_NamedExpr(self, n, st, fid):
        out = []
        for s, v in self.ev(n.value, st, fid):
            f = fid
            while s.frames[f].get('$comp'):
                f = s.frames[f]['$parent']
            s = s.copy()
            self.setname(n.target.id, v, s, f)
            out.append((s, v))
        return out

    def ev_Lambda(self, n, st, fid):
        out = []
        kwd = [(a.arg, d) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None]
        nd = len(n.args.defaults)
        for s, ds in self.evs(list(n.args.defaults) + [d for _, d in kwd], st, fid):
            out.append((s, Fn(n, st.frames[fid]['$mod'], fid, None, 'func', '<lambda>', ds[:nd], {k: v for (k, _), v in zip(kwd, ds[nd:])})))
        return out

    def ev_Subscript(self, n, st, fid):
        out = []
        for s, v in self.ev(n.value, st, fid):
            if isinstance(v, Cl) and not v.info.enum and v.info.lookup('__class_getitem__') is None or (isinstance(v, Bi) and v.recv is None and not v.data) or isinstance(v, Mo):
                out.append((s, v))  # typing generics
                continue
            for s2, i in self.evslice(n.slice, s, fid):
                out += self.lib.getitem(v, i, s2, n)
        return out

    def evslice(self, sl, st, fid):
        if isinstance(sl, ast.Slice):
            nodes = [x if x is not None else ast.Constant(value=None) for x in (sl.lower, sl.upper, sl.step)]
            return [(s, ('slice', vs)) for s, vs in self.evs(nodes, st, fid)]
        return self.ev(sl, st, fid)

    def ev_Starred(self, n, st, fid):
        return self.ev(n.value, st, fid)

    def ev_Yield(self, n, st, fid):
        out = []
        vals = self.ev(n.value, st, fid) if n.value is not None else [(st, NONE)]
        for s, v in vals:
            for flow, s2, x in self.do_yield(v, s, fid, n):
                if flow == NEXT:
                    out.append((s2, NONE))
                else:
                    self.pending_flow(fid).append((flow, s2, x))
        return out

    def ev_YieldFrom(self, n, st, fid):
        out = []
        for s, v in self.ev(n.value, st, fid):
            for s2, segs in self.lib.segs(v, s, n):
                outs = self.iterate(s2, segs, lambda s3, e: self.do_yield(e, s3, fid, n), self.site(n), n)
                for flow, s3, x in outs:
                    if flow == NEXT:
                        out.append((s3, NONE))
                    else:
                        self.pending_flow(fid).append((flow, s3, x))
        return out

    def pending_flow(self, fid):
        return self._pend[-1]

    _pend = None

    def do_yield(self, v, st, fid, node):
        f = fid
        while f is not None and f not in self.yielders:
            f = st.frames[f].get('$parent') if st.frames[f].get('$comp') else None
        if f is None:
            self.limit(f'yield outside a consumer at {self.loc(node)}')
            return [(NEXT, st, None)]
        # the consumer runs in its own calling context
        h, stack = self.yielders[f]
        saved, self.stack = self.stack, list(stack)
        try:
            return h(st, v)
        finally:
            self.stack = saved

    # comprehensions
    def ev_ListComp(self, n, st, fid):
        return self.comp(n, st, fid, 'list')

    def ev_SetComp(self, n, st, fid):
        return self.comp(n, st, fid, 'set')

    def ev_GeneratorExp(self, n, st, fid):
        return self.comp(n, st, fid, 'iter')

    def ev_DictComp(self, n, st, fid):
        return self.comp(n, st, fid, 'dict')

    def comp(self, n, st, fid, kind):
        st = st.copy()
        cf = self.newframe(st, st.frames[fid]['$mod'], fid, None, **{'$comp': True})
        res = self.new(st, Dct() if kind == 'dict' else Lst(kind, ()))

        def emit(s):
            out = []
            nodes = [n.key, n.value] if kind == 'dict' else [n.elt]
            for s2, vs in self.evs(nodes, s, cf):
                s2 = s2.copy()
                if kind == 'dict':
                    for s3 in self.lib.dict_set(s2, res, vs[0], vs[1], n):
                        out.append((NEXT, s3, None))
                else:
                    r = s2.wr(res.oid)
                    if kind != 'set' or not any(isinstance(g, El) and g.v.key == vs[0].key for g in r.segs):
                        r.segs = r.segs + (El(vs[0]),)
                    out.append((NEXT, s2, None))
            return out

        def level(s, i):
            if i == len(n.generators):
                return emit(s)
            g = n.generators[i]
            out = []
            for s2, it in self.ev(g.iter, s, fid if i == 0 else cf):
                def body(s3, e):
                    r = []
                    for s4 in self.assign(g.target, e, s3, cf):
                        cur = [s4]
                        for c in g.ifs:
                            nx = []
                            for s5 in cur:
                                for s6, v in self.ev(c, s5, cf):
                                    for s7, b in self.truth(v, s6, c):
                                        if b:
                                            nx.append(s7)
                                        else:
                                            r.append((NEXT, s7, None))
                            cur = nx
                        for s5 in cur:
                            r += level(s5, i + 1)
                    return r
                for s3, it2 in self.own_iter(it, s2, n):
                    if isinstance(it2, R) and isinstance(s3.heap[it2.oid], GenRec) and kind != 'iter':
                        # resumed between the elements, as a loop would
                        out += self.run_gen(it2, s3, body, n)
                        continue
                    for s4, segs in self.lib.segs(it2, s3, n):
                        out += self.iterate(s4, segs, body, self.site(n) + f'.{i}', n)
            return out
        outs = []
        for flow, s, v in level(st, 0):
            s = s.copy()
            s.frames.pop(cf, None)
            outs.append((s, res))
        return self.merge_vals(outs)

    # -------------------------------------------------------------------- calls
    def ev_Call(self, n, st, fid):
        out = []
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            fr = st.frames[fid]
            return [(st, Bi('super', fr.get('$self'), [Cl(fr['$cls'])] if fr.get('$cls') else []))]
        for s, f in self.ev(n.func, st, fid):
            for s2, args in self.evs(n.args, s, fid):
                outs = [(s2, {})]
                for kw in n.keywords:
                    nxt = []
                    for s3, d in outs:
                        for s4, v in self.ev(kw.value, s3, fid):
                            if kw.arg is not None:
                                nxt.append((s4, {**d, kw.arg: v}))
                            else:
                                r = s4.heap.get(v.oid) if isinstance(v, R) else None
                                if isinstance(r, Dct) and all(isinstance(e, El) and isinstance(e.v.items[0], K) for e in r.segs):
                                    nxt.append((s4, {**d, **{e.v.items[0].v: e.v.items[1] for e in r.segs}}))
                                else:
                                    nxt.append((s4, {**d, '**': self.unk('** of unknown', n)}))
                    outs = nxt
                for s3, kws in outs:
                    out += self.call(f, args, kws, s3, n)
        return out

    def call(self, f, args, kw, st, node):
        self.tick()
        self.calls += 1
        if isinstance(f, Bm):
            return self.call(f.fn, [f.self_] + list(args), kw, st, node)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, st, node)
        if isinstance(f, Cl):
            return self.construct(f.info, args, kw, st, node)
        if isinstance(f, Bi):
            return self.lib.call(f, args, kw, st, node)
        if isinstance(f, R):
            r = st.heap[f.oid]
            if isinstance(r, Obj):
                m = r.cls.lookup('__call__')
                if m is not None:
                    return self.call(Bm(f, m), args, kw, st, node)
            return self.throw(st, 'TypeError', node)
        if isinstance(f, U):
            st = self.havoc(st, args, kw)
            return [(st, f)]
        return self.throw(st, 'TypeError', node)

    def havoc(self, st, args, kw):
        """an unknown callee may change whatever it was handed"""
        st = st.copy()
        st.imp = st.imp | {'unknown callee'}
        for a in list(args) + list(kw.values()):
            if isinstance(a, R):
                r = st.heap.get(a.oid)
                if isinstance(r, (Lst, Dct)):
                    r = st.wr(a.oid)
                    r.segs = (El(self.unk('passed to an unknown callee')),)
        return st

    def bind(self, fn, args, kw, st, node):
        """bind arguments -> list of (state, dict) ([] with TypeError thrown)"""
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                return self.throw(st, 'TypeError', node)
            d[a.vararg.arg] = T(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            d[a.vararg.arg] = T([])
        for nme, v in zip(names, args):
            d[nme] = v
        rest = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in d:
                    return self.throw(st, 'TypeError', node)
                d[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            elif k == '**':
                return [(st, None)]
            else:
                return self.throw(st, 'TypeError', node)
        st = st.copy()
        if a.kwarg is not None:
            d[a.kwarg.arg] = self.new(st, Dct([El(T([K(k), v])) for k, v in rest.items()]))
        nd = len(fn.defaults)
        for i, nme in enumerate(names):
            if nme not in d:
                j = i - (len(names) - nd)
                if j < 0:
                    return self.throw(st, 'TypeError', node)
                d[nme] = fn.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in d:
                if x.arg not in fn.kwdefaults:
                    return self.throw(st, 'TypeError', node)
                d[x.arg] = fn.kwdefaults[x.arg]
        return [(st, d)]

    def call_fn(self, f, args, kw, st, node):
        q = self.fqual(f)
        h = self.hooks.get(q)
        if h is not None:
            h(self, st, args, kw, node)
        c = self.fcontracts.get(q)
        if c is not None:
            r = c(self, f, args, kw, st, node)
            if r is not None:
                return r
        return self.call_body(f, args, kw, st, node)

    def enormous(self, v, st):
        if isinstance(v, N):
            # half-way down the recursion the number may have shrunk: the outermost frames of the stack hold it
            return any(isinstance(x, N) and (x.p.ival() or 0).bit_length() > 900 for _, fr in st.frames.items() for x in fr.values())
        if isinstance(v, R) and isinstance(st.heap[v.oid], Obj):
            return any((x.p.ival() or 0).bit_length() > 900 for _, o in st.heap.items() if isinstance(o, Obj) for x in o.f.values() if isinstance(x, N))
        return False

    def call_body(self, f, args, kw, st, node):
        if len(self.stack) > 60:
            if len(self.stack) > 990:       # the interpreter's own bound is 1000 frames
                if any(self.enormous(v, st) for v in args):
                    # one call per bit of a number of a thousand bits: not counted against the program
                    self.limit('call depth')
                    raise Budget('call depth')
                return self.throw(st, 'RecursionError', node)
            if not all(shallow_const(v, st) for v in args):
                self.limit('call depth')
                raise Budget('call depth')
        self.visited.add(self.fqual(f))
        out = []
        loc, gl, nl, nested, gen, _ = self.info(f.node)
        for s, d in self.bind(f, args, kw, st, node):
            if d is None:
                out.append((s, self.unk('call with unknown keyword arguments', node)))
                continue
            extra = {}
            if f.cls is not None and args:
                extra = {'$self': args[0], '$cls': f.cls}
            fid = self.newframe(s, f.mod, f.fid, f.node, **extra)
            s.frames[fid] = {**s.frames[fid], **d}
            if gen:
                out.append((s, self.new(s, GenRec(f, fid))))
                continue
            # recursion without progress
            rk = None
            if sum(x.node is f.node for x in self.stack) > 2:
                rk = (id(f.node), tuple(v.key for v in d.values()), self.heapkey(s, d, f, s))
                if rk in self.active:
                    self.throw(s, 'RecursionError', node)
                    continue
            self.active.append(rk)
            self.stack.append(f)
            try:
                if isinstance(f.node, ast.Lambda):
                    res = [(RET, s2, v) for s2, v in self.ev(f.node.body, s, fid)]
                else:
                    res = self.block(f.node.body, s, fid)
            finally:
                self.stack.pop()
                self.active.pop()
            vals = []
            for flow, s2, v in res:
                if flow == STOP:
                    vals.append((flow, s2, v))
                    continue
                s2 = s2.copy()
                if not nested:
                    s2.frames.pop(fid, None)
                vals.append((flow, s2, v if flow == RET else NONE))
            for flow, s2, v in vals:
                if flow == STOP:
                    self._pend[-1].append((flow, s2, v))
            out += [(s2, v) for flow, s2, v in vals if flow != STOP]
        return self.merge_vals(out)

    def heapkey(self, st, d, f, s):
        """what a recursive call can see: its arguments' objects and the closure variables"""
        ks = []
        for v in d.values():
            ks.append(self.deepkey(st, v))
        fid = f.fid
        while fid is not None and not fid.startswith('mod:'):
            fr = st.frames[fid]
            for k in sorted(fr):
                if not k.startswith('$') and isinstance(fr[k], V):
                    ks.append(k + '=' + self.deepkey(st, fr[k]))
            fid = fr.get('$parent')
        return tuple(ks)

    def deepkey(self, st, v, seen=None):
        seen = seen or ()
        if isinstance(v, R):
            if v.oid in seen:
                return 'cycle'
            seen = seen + (v.oid,)
            r = st.heap.get(v.oid)
            if isinstance(r, Obj):
                return r.cls.qual + '{' + ','.join(f'{k}:{self.deepkey(st, x, seen)}' for k, x in sorted(r.f.items())) + '}'
            if isinstance(r, (Lst, Dct)):
                return r.kind + '[' + ','.join(self.segkey(st, g, seen) for g in r.segs) + ']'
            if isinstance(r, FileRec):
                return f'file[{r.pos.key if r.pos is not None else ""};' + ','.join(self.segkey(st, g, seen) for g in r.segs) + ']'
            if isinstance(r, View):
                return 'view' + r.doid + r.k.key
            if isinstance(r, ExcRec):
                return 'exc'
            return v.key
        if isinstance(v, T):
            return 'T(' + ','.join(self.deepkey(st, i, seen) for i in v.items) + ')'
        if isinstance(v, Bm):
            return 'Bm' + self.deepkey(st, v.self_, seen) + v.fn.key
        if isinstance(v, Sg):
            return self.segkey(st, v.seg, seen)
        return v.key

    def segkey(self, st, g, seen=()):
        if isinstance(g, El):
            return 'El' + self.deepkey(st, g.v, seen)
        if isinstance(g, Del):
            return 'Del' + self.deepkey(st, g.v, seen)
        if isinstance(g, Star):
            return f'Star{g.dom}(' + ';'.join('|'.join(self.deepkey(st, e, seen) for e in a.elems) + '?' + ','.join(c.key for c in a.conds)
                                        for a in g.alts) + ')'
        if isinstance(g, Sorted):
            return f'Sorted{g.rev}(' + ';'.join(self.segkey(st, x, seen) for x in g.segs) + ';' + ','.join(self.deepkey(st, k, seen) for k in g.keys) + ')'
        if isinstance(g, Unord):
            return 'Unord(' + ';'.join(self.segkey(st, x, seen) for x in g.segs) + ')'
        return g.key

    def pick(self, members, value, st, node):
        """the member of an enumeration with a value"""
        out, pend = [], [st]
        for m in members:
            nx = []
            for s in pend:
                if value.key == m.key:
                    out.append((s, m))
                    continue
                for s2, v in self.lib.compare('==', s.heap[m.oid].f['value'], value, s, node):
                    for s3, t in self.truth(v, s2, node):
                        if t:
                            out.append((s3, m))
                        else:
                            nx.append(s3)
            pend = nx
        for s in pend:
            self.throw(s, 'ValueError', node)
        return out

    def construct(self, info, args, kw, st, node):
        m = self.contracts.get(info.qual)
        if m is not None:
            return m.construct(self, st, args, kw, node)
        if info.opaque:
            return [(self.havoc(st, args, kw), self.unk(f'instance of {info.name}', node))]
        if info.enum:
            if len(args) == 1:
                members = [v for v in info.attrs.values() if isinstance(v, R) and isinstance(st.heap.get(v.oid), Obj)
                           and st.heap[v.oid].cls is info]
                return self.pick(members, args[0], st, node)
            return [(st, self.unk('enum call', node))]
        st = st.copy()
        if any(b in EXC_NAMES for b in info.builtin_bases()):
            init = info.lookup('__init__')
            if init is None:
                return [(st, self.new(st, ExcRec(info, args), 'exc'))]
            return [(st, self.new(st, ExcRec(info, args), 'exc'))]
        if info.lookup('__new__') is not None:
            return [(st, self.unk(f'{info.name}.__new__', node))]
        if info.namedtuple:
            names = [f for f, _ in info.fields]
            d = dict(zip(names, args))
            if len(args) > len(names) or any(k not in names or k in d for k in kw):
                return self.throw(st, 'TypeError', node)
            d.update(kw)
            for f, dv in info.fields:
                if f not in d:
                    if dv is None:
                        return self.throw(st, 'TypeError', node)
                    d[f] = dv
            return [(st, self.new(st, Obj(info, {f: d[f] for f in names})))]
        ref = self.new(st, Obj(info))
        init = info.lookup('__init__')
        if init is not None:
            return [(s, ref) for s, _ in self.call(Bm(ref, init), args, kw, st, node)]
        dc = [c for c in info.mro() if c.dataclass is not None]
        if dc:
            fields = []
            for c in reversed(info.mro()):
                for f, dv in c.fields:
                    fields = [x for x in fields if x[0] != f] + [(f, dv)]
            names = [f for f, _ in fields]
            if len(args) > len(names):
                return self.throw(st, 'TypeError', node)
            d = dict(zip(names, args))
            for k, v in kw.items():
                if k not in names or k in d:
                    return self.throw(st, 'TypeError', node)
                d[k] = v
            outs = [st]
            for f, dv in fields:
                if f not in d:
                    if dv is None:
                        return self.throw(st, 'TypeError', node)
                    if isinstance(dv, tuple):  # default_factory
                        ns = []
                        for s in outs:
                            for s2, v in self.call(dv[1], [], {}, s, node):
                                d[f] = v
                                ns.append(s2)
                        outs = ns
                    else:
                        d[f] = dv
            res = []
            for s in outs:
                r = s.wr(ref.oid)
                r.f = {f: d[f] for f in names}
                pi = info.lookup('__post_init__')
                if pi is not None:
                    res += [(s2, ref) for s2, _ in self.call(Bm(ref, pi), [], {}, s, node)]
                else:
                    res.append((s, ref))
            return res
        if args or kw:
            return self.throw(st, 'TypeError', node)
        return [(st, ref)]

    # --------------------------------------------------------------- attributes
    def getattr_(self, v, name, st, node):
        if isinstance(v, R):
            r = st.heap[v.oid]
            if isinstance(r, Obj):
                m = self.contracts.get(r.cls.qual)
                if m is not None:
                    x = m.getattr(self, st, v, name, node)
                    if x is not None:
                        return x
                p = r.cls.prop(name)
                if p is not None and p.get('get') is not None:
                    return self.call(Bm(v, p['get']), [], {}, st, node)
                if name in r.f:
                    return [(st, r.f[name])]
                a = r.cls.lookup(name)
                if a is not None:
                    if isinstance(a, Fn):
                        if a.kind == 'static':
                            return [(st, a)]
                        if a.kind == 'class':
                            return [(st, Bm(Cl(r.cls), a))]
                        return [(st, Bm(v, a))]
                    if isinstance(a, R) and isinstance(st.heap.get(a.oid), Obj):
                        g = st.heap[a.oid].cls.lookup('__get__')
                        if isinstance(g, Fn):
                            return self.call(Bm(a, g), [v, Cl(r.cls)], {}, st, node)
                    return [(st, a)]
                if name == '__class__':
                    return [(st, Cl(r.cls))]
                if name == '__dict__':
                    return [(st, self.unk('__dict__', node))]
                ga = r.cls.lookup('__getattr__')
                if ga is not None:
                    return self.call(Bm(v, ga), [K(name)], {}, st, node)
                if r.cls.namedtuple and name in ('_replace', '_asdict', 'count', 'index'):
                    return [(st, Bi('namedtuple.' + name, v))]
                if name in ('__doc__', '__module__', '__slots__', '__annotations__', '__dataclass_fields__', '__hash__', '__sizeof__', '__dir__'):
                    return [(st, self.unk(name, node))]
                return self.throw(st, 'AttributeError', node)
            return self.lib.method(v, name, st, node)
        if isinstance(v, Cl):
            i = v.info
            if name == '__name__':
                return [(st, K(i.name))]
            a = i.lookup(name)
            if a is not None:
                if isinstance(a, Fn) and a.kind == 'class':
                    return [(st, Bm(v, a))]
                return [(st, a)]
            p = i.prop(name)
            if p is not None:
                return [(st, self.unk('property object', node))]
            if name in ('__init__', '__new__', '__setattr__', '__eq__', '__hash__'):
                return [(st, Bi('object.' + name))]
            if name == '__qualname__':
                return [(st, K(i.name))]
            if i.namedtuple and name == '_fields':
                return [(st, T([K(f) for f, _ in i.fields]))]
            if i.namedtuple and name == '_make':
                return [(st, Bi('namedtuple_make', v))]
            if name.startswith('__') and name.endswith('__') or name in ('mro', '_field_defaults'):
                return [(st, self.unk('class attribute ' + name, node))]
            return self.throw(st, 'AttributeError', node)
        if isinstance(v, Mo):
            fid = 'mod:' + v.name
            if v.name in self.prog.modules:
                if fid not in st.frames:
                    self.load(v.name)
                    st = self.base
                fr = st.frames.get(fid, {})
                if name in fr:
                    return [(st, fr[name])]
                if v.name + '.' + name in self.prog.modules:
                    return [(st, Mo(v.name + '.' + name))]
                return self.throw(st, 'AttributeError', node)
            return [(st, self.lib.modattr(v.name, name))]
        if isinstance(v, Bi) and v.name == 'super':
            cls = v.data[0].info if v.data else None
            if cls is not None:
                for c in cls.mro()[1:]:
                    if name in c.attrs:
                        a = c.attrs[name]
                        return [(st, Bm(v.recv, a) if isinstance(a, Fn) and a.kind != 'static' else a)]
                return [(st, Bi('object.' + name, v.recv))]
        if isinstance(v, U):
            return [(st, v)]
        return self.lib.method(v, name, st, node)

    def setattr_(self, v, name, x, st, node):
        """-> list of states"""
        if isinstance(v, R):
            r = st.heap[v.oid]
            if isinstance(r, Obj):
                p = r.cls.prop(name)
                sa = r.cls.lookup('__setattr__')
                if sa is not None and isinstance(sa, Fn):
                    return [s for s, _ in self.call(Bm(v, sa), [K(name), x], {}, st, node)]
                return self.raw_setattr(v, name, x, st, node)
            return [st]
        if isinstance(v, Cl):
            if self.frozen_import:
                self.globals_written.append((v.info.qual, name, self.loc(node)))
            v.info.attrs[name] = x
            return [st]
        if isinstance(v, Mo):
            fid = 'mod:' + v.name
            if self.frozen_import:
                self.globals_written.append((v.name, name, self.loc(node)))
            if fid in st.frames:
                st = st.copy()
                st.frames[fid] = {**st.frames[fid], name: x}
            return [st]
        if isinstance(v, Fn):
            if self.frozen_import and v.fid and v.fid.startswith('mod:'):
                self.globals_written.append((v.name, name, self.loc(node)))
            st = st.copy()
            st.frames['$attr:' + v.key] = {**st.frames.get('$attr:' + v.key, {}), name: x}
            return [st]
        if isinstance(v, (U, Bm)):
            return [st]
        return self.throw(st, 'AttributeError', node)

    def raw_setattr(self, v, name, x, st, node, force=False):
        r = st.heap[v.oid]
        p = r.cls.prop(name)
        if p is not None:
            if p.get('set') is not None:
                return [s for s, _ in self.call(Bm(v, p['set']), [x], {}, st, node)]
            return self.throw(st, 'AttributeError', node)
        if r.cls.namedtuple:
            return self.throw(st, 'AttributeError', node)
        if not force and any(c.dataclass and c.dataclass.get('frozen') for c in r.cls.mro()):
            return self.throw(st, 'AttributeError', node)
        sl = r.cls.all_slots()
        if sl is not None and name not in sl:
            return self.throw(st, 'AttributeError', node)
        if v.oid in self.shared and self.frozen_import:
            self.mutated.append((v.oid, f'{r.cls.name}.{name}', self.loc(node)))
        st = st.copy()
        st.wr(v.oid).f[name] = x
        return [st]

    # --------------------------------------------------------------- statements
    def block(self, stmts, st, fid):
        cur = [st]
        outs = []
        for s in stmts:
            nxt = []
            for c in cur:
                for flow, s2, v in self.stmt(s, c, fid):
                    if flow == NEXT:
                        nxt.append(s2)
                    else:
                        outs.append((flow, s2, v))
            cur = self.merge(nxt)
            if not cur:
                break
        return [(NEXT, c, None) for c in cur] + outs

    def stmt(self, n, st, fid):
        self.tick()
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            self.limit(f'statement {type(n).__name__} at {self.loc(n)}')
            st.imp = st.imp | {'statement ' + type(n).__name__}
            return [(NEXT, st, None)]
        if self._pend is None:
            self._pend = []
        self._pend.append([])
        try:
            r = m(n, st, fid)
        finally:
            p = self._pend.pop()
        return r + p

    def st_Expr(self, n, st, fid):
        return [(NEXT, s, None) for s, v in self.ev(n.value, st, fid)]

    def st_Pass(self, n, st, fid):
        return [(NEXT, st, None)]

    st_Global = st_Nonlocal = st_Pass

    def st_Break(self, n, st, fid):
        return [(BREAK, st, None)]

    def st_Continue(self, n, st, fid):
        return [(CONT, st, None)]

    def st_Return(self, n, st, fid):
        if n.value is None:
            return [(RET, self.at(st, n), NONE)]
        return [(RET, self.at(s, n), v) for s, v in self.ev(n.value, st, fid)]

    def at(self, st, n):
        s = st.copy()
        s.where = self.loc(n)
        return s

    def st_Assign(self, n, st, fid):
        out = []
        for s, v in self.ev(n.value, st, fid):
            cur = [s]
            for t in n.targets:
                cur = [s3 for s2 in cur for s3 in self.assign(t, v, s2, fid)]
            out += [(NEXT, c, None) for c in cur]
        return out

    def st_AnnAssign(self, n, st, fid):
        fr = st.frames[fid]
        if fr.get('$class') is not None and isinstance(n.target, ast.Name):
            st = st.copy()
            ann = fr.get('$ann', ()) + (n.target.id,)
            st.frames[fid] = {**st.frames[fid], '$ann': ann}
        if n.value is None:
            return [(NEXT, st, None)]
        out = []
        for s, v in self.ev(n.value, st, fid):
            out += [(NEXT, s2, None) for s2 in self.assign(n.target, v, s, fid)]
        return out

    def st_AugAssign(self, n, st, fid):
        out = []
        op = OPS[type(n.op)]
        t = n.target
        if isinstance(t, ast.Name):
            for s, a in self.getname(t.id, st, fid, n):
                for s2, b in self.ev(n.value, s, fid):
                    for s3, v in self.inplace(op, a, b, s2, n):
                        out += [(NEXT, s4, None) for s4 in self.assign(t, v, s3, fid)]
        elif isinstance(t, ast.Attribute):
            for s, o in self.ev(t.value, st, fid):
                for s1, a in self.getattr_(o, t.attr, s, n):
                    for s2, b in self.ev(n.value, s1, fid):
                        for s3, v in self.inplace(op, a, b, s2, n):
                            out += [(NEXT, s4, None) for s4 in self.setattr_(o, t.attr, v, s3, n)]
        else:
            for s, o in self.ev(t.value, st, fid):
                for s1, i in self.evslice(t.slice, s, fid):
                    for s2, a in self.lib.getitem(o, i, s1, n):
                        for s3, b in self.ev(n.value, s2, fid):
                            for s4, v in self.inplace(op, a, b, s3, n):
                                out += [(NEXT, s5, None) for s5 in self.lib.setitem(o, i, v, s4, n)]
        return out

    def inplace(self, op, a, b, st, node):
        if op == '+' and isinstance(a, R):
            r = st.heap[a.oid]
            if isinstance(r, Lst) and r.kind in ('list', 'bytearray'):
                out = []
                for s, _ in self.lib.list_extend(st, a, b, node):
                    out.append((s, a))
                return out
            if isinstance(r, View):
                return [(s, a) for s, _ in self.lib.list_extend(st, a, b, node)]
        if isinstance(a, R) and (isinstance(st.heap[a.oid], Dct) and op == '|' or isinstance(st.heap[a.oid], Lst) and (
                st.heap[a.oid].kind == 'set' and op in '|&-^' or st.heap[a.oid].kind in ('list', 'bytearray', 'deque') and op == '*')):
            out = []
            for s, v in self.binop(op, a, b, st, node):
                if isinstance(v, R) and type(s.heap[v.oid]) is type(s.heap[a.oid]):
                    s = s.copy()
                    s.wr(a.oid).segs = s.heap[v.oid].segs
                    out.append((s, a))
                else:
                    s = s.copy()
                    s.imp = s.imp | {'in-place operator'}
                    out.append((s, v))
            return out
        if isinstance(a, R) and isinstance(st.heap[a.oid], Obj) and op in INPLACE:
            r = st.heap[a.oid]
            m = r.cls.lookup(INPLACE[op]) if self.contracts.get(r.cls.qual) is None else None
            if m is not None:
                return self.call(Bm(a, m), [b], {}, st, node)
        return self.binop(op, a, b, st, node)

    def getattr_call(self, v, name, st, node, args=()):
        out = []
        for s, m in self.getattr_(v, name, st, node):
            out += self.call(m, list(args), {}, s, node)
        return out

    def assign(self, t, v, st, fid):
        """-> list of states"""
        if isinstance(t, ast.Name):
            st = st.copy()
            self.setname(t.id, v, st, fid)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.assign_seq(t, v, st, fid)
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, fid):
                out += self.setattr_(o, t.attr, v, s, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, o in self.ev(t.value, st, fid):
                for s2, i in self.evslice(t.slice, s, fid):
                    out += self.lib.setitem(o, i, v, s2, t)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fid)
        self.limit(f'assignment target {type(t).__name__}')
        return [st]

    def assign_seq(self, t, v, st, fid):
        if isinstance(v, U):
            cur = [st]
            for e in t.elts:
                cur = [s2 for s in cur for s2 in self.assign(e, v, s, fid)]
            return cur
        out = []
        for s, segs in self.lib.segs(v, st, t):
            if not all(isinstance(g, El) for g in segs):
                cur = [s]
                u = self.unk('unpacking a sequence of unknown length', t)
                for e in t.elts:
                    cur = [s3 for s2 in cur for s3 in self.assign(e, u, s2, fid)]
                out += cur
                continue
            items = [g.v for g in segs]
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.throw(s, 'ValueError', t)
                    continue
                s = s.copy()
                mid = self.new(s, Lst('list', [El(x) for x in items[i:len(items) - after]]))
                items = items[:i] + [mid] + (items[len(items) - after:] if after else [])
            elif len(items) != len(t.elts):
                self.throw(s, 'ValueError', t)
                continue
            cur = [s]
            for e, x in zip(t.elts, items):
                cur = [s3 for s2 in cur for s3 in self.assign(e, x, s2, fid)]
            out += cur
        return out

    def st_Delete(self, n, st, fid):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s = s.copy()
                    fr = dict(s.frames[fid])
                    fr.pop(t.id, None)
                    s.frames[fid] = fr
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, o in self.ev(t.value, s, fid):
                        for s3, i in self.evslice(t.slice, s2, fid):
                            nxt += self.lib.delitem(o, i, s3, t)
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, s, fid):
                        s2 = s2.copy()
                        if isinstance(o, R) and isinstance(s2.heap[o.oid], Obj):
                            s2.wr(o.oid).f.pop(t.attr, None)
                        nxt.append(s2)
            cur = nxt
        return [(NEXT, c, None) for c in cur]

    def st_If(self, n, st, fid):
        out = []
        for s, v in self.ev(n.test, st, fid):
            for s2, b in self.truth(v, s, n.test):
                body = n.body if b else n.orelse
                out += self.block(body, s2, fid) if body else [(NEXT, s2, None)]
        return out

    def st_Assert(self, n, st, fid):
        out = []
        for s, v in self.ev(n.test, st, fid):
            for s2, b in self.truth(v, s, n.test):
                if b:
                    out.append((NEXT, s2, None))
                else:
                    self.throw(s2, 'AssertionError', n, implicit=False)
        return out

    def st_Raise(self, n, st, fid):
        if n.exc is None:
            e = st.frames[fid].get('$exc')
            if e is not None:
                self.throw(st, e.cls, n, e.args, implicit=False)
            else:
                self.throw(st, 'RuntimeError', n)
            return []
        outs, excs = self.catch(lambda: self.ev(n.exc, st, fid))
        self.sinks[-1] += excs
        kinds = {s.heap[v.oid].cls if isinstance(v, R) and isinstance(s.heap[v.oid], ExcRec) else None for s, v in outs}
        if len(outs) > 1 and len(kinds) == 1 and None not in kinds and not excs and \
                all(s.heap.get(o) is r for s, _ in outs for o, r in st.heap.items()):
            # the paths differ in the text of the message only
            self.throw(st, kinds.pop(), n, (), implicit=False)
            return []
        for s, v in outs:
            if isinstance(v, Cl):
                self.throw(s, v.info, n, implicit=False)
            elif isinstance(v, Bi) and v.name.startswith('builtins.'):
                self.throw(s, v.name[9:], n, implicit=False)
            elif isinstance(v, R) and isinstance(s.heap[v.oid], ExcRec):
                r = s.heap[v.oid]
                self.throw(s, r.cls, n, r.args, implicit=False)
            elif isinstance(v, U):
                s.imp = s.imp | {v.why}
                self.throw(s, 'Exception', n, implicit=False)
            else:
                self.throw(s, 'TypeError', n)
        return []

    def st_Try(self, n, st, fid):
        res, excs = self.catch(lambda: self.block(n.body, st, fid))
        outs = []
        for flow, s, v in res:
            if flow == NEXT and n.orelse:
                outs += self.block(n.orelse, s, fid)
            else:
                outs.append((flow, s, v))
        rest = []
        for e in excs:
            handled = False
            for h in n.handlers:
                m = self.handler_matches(h, e, fid)
                if m:
                    s = e.st.copy()
                    fr = dict(s.frames[fid])
                    old = fr.get('$exc')
                    fr['$exc'] = e
                    if h.name:
                        s.frames[fid] = fr
                        fr[h.name] = self.new(s, ExcRec(e.cls, e.args), 'exc')
                    s.frames[fid] = fr
                    for flow, s2, v in self.block(h.body, s, fid):
                        s2 = s2.copy()
                        f2 = dict(s2.frames[fid])
                        f2['$exc'] = old
                        if h.name:
                            f2.pop(h.name, None)
                        s2.frames[fid] = f2
                        outs.append((flow, s2, v))
                    handled = True
                    break
            if not handled:
                rest.append(e)
        if not n.finalbody:
            self.sinks[-1] += rest
            return outs
        fin = []
        for flow, s, v in outs:
            for f2, s2, v2 in self.block(n.finalbody, s, fid):
                fin.append((flow, s2, v) if f2 == NEXT else (f2, s2, v2))
        for e in rest:
            for f2, s2, v2 in self.block(n.finalbody, e.st, fid):
                if f2 == NEXT:
                    self.sinks[-1].append(Exc(s2, e.cls, e.args, e.loc, e.implicit))
                else:
                    fin.append((f2, s2, v2))
        return fin

    def handler_matches(self, h, e, fid):
        if h.type is None:
            return True
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in types:
            for s, v in self.ev(t, e.st, fid):
                vs = v.items if isinstance(v, T) else [v]
                for v in vs:
                    if isinstance(v, Cl):
                        if isinstance(e.cls, ClassInfo) and e.cls.is_subclass(v.info):
                            return True
                    elif isinstance(v, Bi):
                        if e.isa(v.name.split('.')[-1]):
                            return True
        return False

    def st_With(self, n, st, fid):
        def go(i, s):
            if i == len(n.items):
                return self.block(n.body, s, fid)
            it = n.items[i]
            out = []
            for s2, cm in self.ev(it.context_expr, s, fid):
                for s3, v, close in self.lib.enter(cm, s2, n):
                    cur = [s3]
                    if it.optional_vars is not None:
                        cur = self.assign(it.optional_vars, v, s3, fid)
                    for s4 in cur:
                        r, ex = self.catch(lambda: go(i + 1, s4))
                        for flow, s5, x in r:
                            out += [(flow, s6, x) for s6, _ in close(s5, None)]
                        for e in ex:
                            for s6, swallowed in close(e.st, e):
                                if swallowed:
                                    out.append((NEXT, s6, None))
                                else:
                                    self.sinks[-1].append(Exc(s6, e.cls, e.args, e.loc, e.implicit))
            return out
        return go(0, st)

    def st_FunctionDef(self, n, st, fid):
        out = []
        kwd = [(a.arg, d) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None]
        for s, ds in self.evs(list(n.args.defaults) + [d for _, d in kwd] + list(n.decorator_list), st, fid):
            nd = len(n.args.defaults)
            dvals, kvals, decos = ds[:nd], ds[nd:nd + len(kwd)], ds[nd + len(kwd):]
            fr = s.frames[fid]
            cls = fr.get('$class')
            kind = 'func'
            s = s.copy()
            unknown = None
            role = None
            for dn, dv in zip(n.decorator_list, decos):
                if isinstance(dv, Bi) and dv.name == 'builtins.staticmethod':
                    kind = 'static'
                elif isinstance(dv, Bi) and dv.name == 'builtins.classmethod':
                    kind = 'class'
                elif isinstance(dv, Bi) and dv.name in ('builtins.property', 'functools.cached_property'):
                    role = 'get'
                elif isinstance(dv, Bi) and dv.name == 'propmethod':
                    role = {'setter': 'set', 'getter': 'get', 'deleter': 'del'}[dv.data[0].v]
                elif isinstance(dv, Bi) and dv.name.split('.')[0] in ('functools', 'abc', 'typing', 'contextlib') and \
                        dv.name.split('.')[-1] in ('wraps', 'abstractmethod', 'overload', 'final',
                                                   'no_type_check', 'identity_deco', 'contextmanager'):
                    if dv.name.endswith('contextmanager'):
                        unknown = dv
                else:
                    unknown = dv
            parent = fid
            if cls is not None:
                parent = fr.get('$parent')
            f = Fn(n, fr['$mod'], parent if parent is not None else None, cls, kind, n.name, dvals,
                   {k: v for (k, _), v in zip(kwd, kvals)})
            if unknown is not None:
                # apply the decorator as a call
                res = self.call(unknown, [f], {}, s, n)
                for s2, v in res:
                    if isinstance(v, Fn) and cls is not None:
                        v = Fn(v.node, v.mod, v.fid, cls, kind, n.name, v.defaults, v.kwdefaults)
                    s2 = s2.copy()
                    self.setname(n.name, v, s2, fid)
                    out.append((NEXT, s2, None))
                continue
            if role is not None and cls is not None:
                cls.props.setdefault(n.name, {})[role] = f
                self.setname(n.name, Bi('propobj', None, [K(n.name)]), s, fid)
            else:
                self.setname(n.name, f, s, fid)
            out.append((NEXT, s, None))
        return out

    def st_ClassDef(self, n, st, fid):
        mod = st.frames[fid]['$mod']
        info = ClassInfo(n.name, mod + '.' + n.name, mod, n)
        outs = []
        for s, vs in self.evs(list(n.bases) + list(n.decorator_list), st, fid):
            bases, decos = vs[:len(n.bases)], vs[len(n.bases):]
            for b in bases:
                if isinstance(b, Cl):
                    info.bases.append(b.info)
                    if b.info.namedtuple:
                        pass
                elif isinstance(b, Bi):
                    nm = b.name.split('.')[-1]
                    if b.name == 'typing.NamedTuple':
                        info.namedtuple = True
                    elif b.name.startswith('enum.'):
                        info.enum = True
                        if nm in ('IntEnum', 'IntFlag'):
                            info.bases.append(self.base.frames['mod:_lib']['IntEnum'].info)
                        elif nm != 'Enum':
                            info.opaque = True
                    elif b.name.startswith('builtins.'):
                        info.bases.append(nm)
                        if nm not in EXC_NAMES and nm != 'object':
                            info.opaque = True
                    elif b.name in ('typing.Generic', 'abc.ABC', 'typing.Protocol', 'typing.Iterable', 'collections.abc.Iterable'):
                        pass
                    elif b.name == 'dynamic.namedtuple':
                        info.namedtuple = True
                        info.fields = [(x.v, None) for x in b.data]
                    else:
                        info.opaque = True
                else:
                    info.opaque = True
            for k in n.keywords:
                if k.arg == 'metaclass':
                    nm = k.value
                    if not (isinstance(nm, (ast.Name, ast.Attribute)) and (getattr(nm, 'id', None) or nm.attr) == 'ABCMeta'):
                        info.opaque = True
            s = s.copy()
            cf = self.newframe(s, mod, fid, None, **{'$class': info})
            for flow, s2, v in self.block(n.body, s, cf):
                if flow != NEXT:
                    continue
                s2 = s2.copy()
                fr = s2.frames.pop(cf)
                for k, v in fr.items():
                    if k.startswith('$'):
                        continue
                    if isinstance(v, Bi) and v.name == 'propobj':
                        continue
                    info.attrs[k] = v
                sl = info.attrs.get('__slots__')
                if sl is not None:
                    if isinstance(sl, K):
                        info.slots = [sl.v]
                    else:
                        for s3, items in self.unpack_all(sl, s2, n):
                            info.slots = [i.v for i in items if isinstance(i, K)]
                ann = fr.get('$ann', ())
                for dn, dv in zip(n.decorator_list, decos):
                    nm = dv.name if isinstance(dv, Bi) else None
                    if nm == 'dataclasses.dataclass':
                        opts = {}
                        if isinstance(dn, ast.Call):
                            for kw in dn.keywords:
                                opts[kw.arg] = getattr(kw.value, 'value', None)
                        info.dataclass = opts
                    elif nm == 'functools.total_ordering':
                        info.total_ordering = True
                    elif nm in ('typing.final', 'enum.unique'):
                        pass
                    else:
                        info.opaque = True
                if info.dataclass is not None or info.namedtuple:
                    fl = []
                    for a in dict.fromkeys(ann):
                        dv = info.attrs.get(a)
                        if isinstance(dv, Bi) and dv.name == 'dataclasses.fieldobj':
                            dv = dv.data[0] if dv.data and dv.recv is None else (('factory', dv.recv) if dv.recv is not None else None)
                            if isinstance(dv, tuple):
                                info.attrs.pop(a, None)
                        fl.append((a, dv))
                    if fl or not info.fields:
                        info.fields = fl
                    if info.dataclass is not None and info.dataclass.get('slots'):
                        info.slots = [a for a, _ in fl]
                self.setname(n.name, Cl(info), s2, fid)
                if info.enum:
                    for k in list(info.attrs):
                        v = info.attrs[k]
                        if not isinstance(v, Fn) and not k.startswith('_'):
                            o = self.new(s2, Obj(info, {'name': K(k), 'value': v, '_value_': v, '_name_': K(k)}), 'enum')
                            info.attrs[k] = o
                outs.append((NEXT, s2, None))
        return outs

    def st_Import(self, n, st, fid):
        st = st.copy()
        for a in n.names:
            top = a.name if a.asname else a.name.split('.')[0]
            if a.name in self.prog.modules and not self.frozen_import:
                st = self._load_in(a.name, st)
            self.setname(a.asname or top, Mo(top), st, fid)
        return [(NEXT, st, None)]

    def _load_in(self, name, st):
        """load a package module while another is being evaluated"""
        self.base = st
        self.load(name)
        return self.base

    def st_ImportFrom(self, n, st, fid):
        mod = n.module or ''
        if n.level:
            cur = st.frames[fid]['$mod'].split('.')
            m = self.prog.modules[st.frames[fid]['$mod']]
            up = n.level - (1 if m.is_pkg else 0)
            cur = cur[:len(cur) - up]
            mod = '.'.join(cur + ([mod] if mod else []))
        st = st.copy()
        if mod in self.prog.modules:
            if not self.frozen_import:
                st = self._load_in(mod, st).copy()
            for a in n.names:
                fr = st.frames.get('mod:' + mod, {})
                if a.name == '*':
                    for k, v in fr.items():
                        if not k.startswith('_') and not k.startswith('$'):
                            self.setname(k, v, st, fid)
                    continue
                if a.name in fr:
                    self.setname(a.asname or a.name, fr[a.name], st, fid)
                elif mod + '.' + a.name in self.prog.modules:
                    if not self.frozen_import:
                        st = self._load_in(mod + '.' + a.name, st).copy()
                    self.setname(a.asname or a.name, Mo(mod + '.' + a.name), st, fid)
                else:
                    self.throw(st, 'ImportError', n)
                    return []
            return [(NEXT, st, None)]
        for a in n.names:
            self.setname(a.asname or a.name, self.lib.modattr(mod, a.name), st, fid)
        return [(NEXT, st, None)]

    def st_Match(self, n, st, fid):
        out = []
        for s, v in self.ev(n.subject, st, fid):
            cur = [s]
            for c in n.cases:
                nxt = []
                for s2 in cur:
                    for s3, ok in self.pat(c.pattern, v, s2, fid):
                        if not ok:
                            nxt.append(s3)
                            continue
                        if c.guard is not None:
                            for s4, g in self.ev(c.guard, s3, fid):
                                for s5, b in self.truth(g, s4, c.guard):
                                    if b:
                                        out += self.block(c.body, s5, fid)
                                    else:
                                        nxt.append(s5)
                        else:
                            out += self.block(c.body, s3, fid)
                cur = nxt
            out += [(NEXT, s2, None) for s2 in cur]
        return out

    def pat(self, p, v, st, fid):
        """[(state, matched)]"""
        if isinstance(p, ast.MatchValue):
            out = []
            for s, x in self.ev(p.value, st, fid):
                for s2, b in self.compare('==', v, x, s, p):
                    out += self.truth(b, s2, p)
            return out
        if isinstance(p, ast.MatchSingleton):
            out = []
            for s, b in self.compare('is', v, K(p.value), st, p):
                out += self.truth(b, s, p)
            return out
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st = st.copy()
                    self.setname(p.name, v, st, fid)
                return [(st, True)]
            out = []
            for s, ok in self.pat(p.pattern, v, st, fid):
                if ok and p.name:
                    s = s.copy()
                    self.setname(p.name, v, s, fid)
                out.append((s, ok))
            return out
        if isinstance(p, ast.MatchOr):
            out, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, ok in self.pat(q, v, s, fid):
                        (out if ok else nxt).append((s2, True) if ok else s2)
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(p, ast.MatchClass):
            out = []
            for s, c in self.ev(p.cls, st, fid):
                for s2, r in self.lib.isinstance_(v, c, s, p):
                    for s3, b in self.truth(r, s2, p):
                        if not b:
                            out.append((s3, False))
                            continue
                        pats = list(zip(p.kwd_attrs, p.kwd_patterns))
                        if p.patterns:
                            if isinstance(c, Cl):
                                names = [f for k in reversed(c.info.mro()) for f, _ in k.fields]
                                pats = list(zip(names, p.patterns)) + pats
                            elif len(p.patterns) == 1:
                                pats = [(None, p.patterns[0])] + pats
                        cur = [s3]
                        for a, q in pats:
                            nx = []
                            for s4 in cur:
                                for s5, av in (self.getattr_(v, a, s4, p) if a else [(s4, v)]):
                                    for s6, ok in self.pat(q, av, s5, fid):
                                        if ok:
                                            nx.append(s6)
                                        else:
                                            out.append((s6, False))
                            cur = nx
                        out += [(s4, True) for s4 in cur]
            return out
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, T) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                if len(v.items) != len(p.patterns):
                    return [(st, False)]
                out, cur = [], [st]
                for q, x in zip(p.patterns, v.items):
                    nx = []
                    for s in cur:
                        for s2, ok in self.pat(q, x, s, fid):
                            if ok:
                                nx.append(s2)
                            else:
                                out.append((s2, False))
                    cur = nx
                return out + [(s, True) for s in cur]
        u = self.unk('pattern ' + type(p).__name__, p)
        return [(s, b) for s, b in self.truth(u, st, p)]

    # ------------------------------------------------------------------- loops
    def site(self, n):
        f = self.stack[-1] if self.stack else None
        return f'{self.fname(f) if f else "top"}:{n.lineno - (f.node.lineno if f else 0)}'

    def st_For(self, n, st, fid):
        out = []

        def body(s, e):
            r = []
            for s2 in self.assign(n.target, e, s, fid):
                r += self.block(n.body, s2, fid)
            return r
        its = []
        for s, it in self.ev(n.iter, st, fid):
            its += self.own_iter(it, s, n)
        for s, it in its:
            r = s.heap.get(it.oid) if isinstance(it, R) else None
            if isinstance(r, GenRec):
                outs = self.run_gen(it, s, body, n)
            else:
                outs = []
                for s2, segs in self.lib.segs(it, s, n):
                    outs += self.iterate(s2, segs, body, self.site(n), n, fid)
            for flow, s2, v in outs:
                if flow == BREAK:
                    out.append((NEXT, s2, None))
                elif flow == NEXT:
                    out += self.block(n.orelse, s2, fid) if n.orelse else [(NEXT, s2, None)]
                else:
                    out.append((flow, s2, v))
        return out

    def own_iter(self, it, st, node):
        """an object whose __iter__ is a generator function -> that generator, to be consumed lazily"""
        r = st.heap.get(it.oid) if isinstance(it, R) else None
        if isinstance(r, Obj) and self.contracts.get(r.cls.qual) is None and not r.cls.namedtuple:
            f = r.cls.lookup('__iter__')
            if isinstance(f, Fn) and self.info(f.node)[4]:
                return self.call(Bm(it, f), [], {}, st, node)
        return [(st, it)]

    def run_gen(self, g, st, body, node):
        """run a generator with body as its consumer -> flows"""
        r = st.heap[g.oid]
        fid, f = r.fid, r.fn
        if r.started:
            self.limit(f'resuming a generator at {self.loc(node)}')
            st = st.copy()
            st.imp = st.imp | {'resumed generator'}
        st = st.copy()
        st.wr(g.oid).started = True

        def handler(s, v):
            o = []
            for flow, s2, x in body(s, v):
                if flow in (NEXT, CONT):
                    o.append((NEXT, s2, None))
                else:
                    o.append((STOP, s2, (fid, flow, x)))
            return o
        old = self.yielders.get(fid)
        self.yielders[fid] = (handler, list(self.stack))
        self.visited.add(self.fqual(f))
        self.stack.append(f)
        try:
            res = self.block(f.node.body, st, fid)
        finally:
            self.stack.pop()
            if old is None:
                del self.yielders[fid]
            else:
                self.yielders[fid] = old
        out = []
        for flow, s, v in res:
            if flow == STOP and v[0] == fid:
                out.append((v[1], s, v[2]))
            elif flow == STOP:
                out.append((flow, s, v))
            else:
                out.append((NEXT, s, None))
        return out

    def st_While(self, n, st, fid):
        import loops
        return loops.run_while(self, n, st, fid)

    def iterate(self, st, segs, body, site, node, fid=None):
        import loops
        return loops.iterate(self, st, segs, body, site, node, fid)

    # ----------------------------------------------------------------- merging
    def merge(self, states):
        if len(states) < 2:
            return states
        groups = {}
        for s in states:
            groups.setdefault(self.envkey(s), []).append(s)
        if len(groups) == len(states):
            return states
        out = []
        for g in groups.values():
            s = g[0]
            if len(g) > 1:
                s = s.copy()
                for o in g[1:]:
                    s.facts = s.facts.join(o.facts)
                    s.imp = s.imp | o.imp
            out.append(s)
        return out

    def envkey(self, s):
        parts = []
        for f in sorted(s.frames):
            if f.startswith('mod:'):
                parts.append(id(s.frames[f]))
                continue
            fr = s.frames[f]
            parts.append((f, tuple((k, v.key) for k, v in sorted(fr.items()) if isinstance(v, V))))
        parts.append(tuple((o, id(r)) for o, r in sorted(s.heap.items())))
        return tuple(parts)

    def merge_vals(self, outs):
        if len(outs) < 2:
            return outs
        groups = {}
        for s, v in outs:
            groups.setdefault((self.envkey(s), v.key), []).append((s, v))
        if len(groups) == len(outs):
            return outs
        res = []
        for g in groups.values():
            s, v = g[0]
            if len(g) > 1:
                s = s.copy()
                for o, _ in g[1:]:
                    s.facts = s.facts.join(o.facts)
                    s.imp = s.imp | o.imp
            res.append((s, v))
        return res


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.MatMult: '@'}
CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
        ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
EXC_NAMES = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
