"""Builtin functions, methods of builtin types and library modules."""
import ast
import builtins
import string

from lib_std import *

ITERABLES = {'Iterable', 'Collection', 'Container', 'Sized', 'Reversible', 'Sequence', 'Iterator', 'Mapping', 'MutableSequence',
             'MutableMapping', 'Set', 'Hashable', 'Callable', 'ByteString', 'Generator'}


class Unfold(Exception):
    """not a constant the analyser may compute with"""


class Library(LibStd):
    # ------------------------------------------------------------------- types
    def typename(self, v, st):
        if isinstance(v, (N,)):
            return 'int'
        if isinstance(v, F):
            return 'float'
        if isinstance(v, B):
            return 'bool'
        if isinstance(v, S):
            return 'str'
        if isinstance(v, Y):
            return 'bytes'
        if isinstance(v, T):
            return 'tuple'
        if isinstance(v, K):
            return type(v.v).__name__
        if isinstance(v, R):
            r = st.heap[v.oid]
            if isinstance(r, Lst):
                return {'iter': 'iterator'}.get(r.kind, r.kind)
            if isinstance(r, Dct):
                return 'dict'
            if isinstance(r, View):
                return 'list'
            if isinstance(r, GenRec):
                return 'generator'
            if isinstance(r, FileRec):
                return 'BytesIO'
        if isinstance(v, (Fn, Bm)):
            return 'function'
        if isinstance(v, Cl):
            return 'type'
        if isinstance(v, Bi) and v.name.startswith('builtins.') and v.recv is None and isinstance(getattr(builtins, v.name[9:], None), type):
            return 'type'
        return None

    def isinstance_(self, v, c, st, node):
        I = self.I
        if isinstance(v, U):
            return [(st, U('isinstance ' + v.why))]
        if isinstance(c, T):
            out, cur = [], [st]
            for x in c.items:
                nx = []
                for s in cur:
                    for s2, b in self.isinstance_(v, x, s, node):
                        for s3, t in I.truth(b, s2, node):
                            (out.append((s3, TRUE)) if t else nx.append(s3))
                cur = nx
            return out + [(s, FALSE) for s in cur]
        if isinstance(c, Cl):
            if isobj(v, st):
                return [(st, K(st.heap[v.oid].cls.is_subclass(c.info)))]
            if isinstance(v, R) and isinstance(st.heap[v.oid], ExcRec):
                e = st.heap[v.oid].cls
                return [(st, K(isinstance(e, ClassInfo) and e.is_subclass(c.info)))]
            return [(st, FALSE)]
        if isinstance(c, Bi):
            n = c.name.split('.')[-1]
            mod = c.name.split('.')[0]
            t = self.typename(v, st)
            if mod == 'builtins':
                if n == 'object':
                    return [(st, TRUE)]
                if isobj(v, st):
                    if st.heap[v.oid].cls.namedtuple and n == 'tuple':
                        return [(st, TRUE)]
                    return [(st, K(n in st.heap[v.oid].cls.builtin_bases()))]
                if t == n:
                    return [(st, TRUE)]
                if t == 'bool' and n == 'int':
                    return [(st, TRUE)]
                return [(st, FALSE)]
            if n == 'NoneType':
                return [(st, K(isinstance(v, K) and v.v is None))]
            if mod == 'numbers':
                num = {'int', 'bool'} if n in ('Integral', 'Rational') else {'int', 'bool', 'float'}
                return [(st, K(t in num))]
            if mod in ('typing', 'collections') and n in ITERABLES or n in ('List', 'Tuple', 'Dict'):
                return [(st, K(self._abc(v, n, t, st)))]
            if n in ('BytesIO', 'RawIOBase', 'IOBase', 'BufferedIOBase'):
                return [(st, K(t == 'BytesIO'))]
            if n == 'Fraction':
                return [(st, FALSE)]
        return [(st, I.unk('isinstance', node))]

    def _abc(self, v, n, t, st):
        if isobj(v, st):
            cls = st.heap[v.oid].cls
            m = self.I.contracts.get(cls.qual)
            names = {'Iterable': ['__iter__'], 'Sized': ['__len__'], 'Container': ['__contains__'], 'Iterator': ['__next__'],
                     'Collection': ['__iter__', '__len__', '__contains__'], 'Hashable': ['__hash__'], 'Callable': ['__call__']}.get(n)
            if cls.namedtuple:
                return n not in ('Iterator', 'Callable')
            if names is None:
                return False
            if n == 'Hashable':
                return cls.lookup('__eq__') is None or cls.lookup('__hash__') is not None
            return all(cls.lookup(x) is not None for x in names)
        seq = t in ('list', 'tuple', 'str', 'bytes', 'range', 'bytearray', 'deque')
        coll = seq or t in ('dict', 'set', 'frozenset')
        if n == 'Iterable':
            return coll or t in ('iterator', 'generator', 'BytesIO')
        if n in ('Collection', 'Sized', 'Container'):
            return coll
        if n in ('Sequence',):
            return seq
        if n == 'Reversible':
            return seq or t == 'dict'
        if n in ('Iterator',):
            return t in ('iterator', 'generator')
        if n == 'Generator':
            return t == 'generator'
        if n in ('Mapping', 'MutableMapping', 'Dict'):
            return t == 'dict'
        if n == 'Set':
            return t in ('set', 'frozenset')
        if n == 'List':
            return t == 'list'
        if n == 'Tuple':
            return t == 'tuple'
        if n == 'Callable':
            return t in ('function', 'type')
        return False

    # ----------------------------------------------------------------- modules
    STUBS = {
        'functools.lru_cache': 'lru_cache', 'functools.cache': 'cache', 'functools.singledispatch': 'singledispatch',
        'contextlib.suppress': 'suppress', 'contextlib.closing': 'closing', 'contextlib.nullcontext': 'nullcontext',
        'threading.Lock': 'Lock', 'threading.RLock': 'Lock', 'threading.local': 'Namespace', 'types.SimpleNamespace': 'Namespace',
        'contextvars.ContextVar': 'ContextVar', 'weakref.WeakKeyDictionary': 'WeakDict', 'weakref.WeakValueDictionary': 'WeakDict',
        'bisect.bisect_left': 'bisect_left', 'bisect.bisect_right': 'bisect_right', 'bisect.bisect': 'bisect_right',
        'heapq.nsmallest': 'nsmallest', 'heapq.nlargest': 'nlargest',
        **{'itertools.' + n: n for n in ('count', 'cycle', 'takewhile', 'dropwhile', 'filterfalse', 'compress', 'groupby', 'batched', 'product', 'combinations')}}

    def stub(self, name):
        return self.I.base.frames['mod:_lib'][name]

    def modattr(self, mod, name):
        if self.STUBS.get(mod + '.' + name) in self.I.base.frames.get('mod:_lib', ()):
            return self.stub(self.STUBS[mod + '.' + name])
        if mod == 'string' and isinstance(getattr(string, name, None), str):
            return K(getattr(string, name))
        if mod == 'math':
            if name in ('inf', 'nan', 'pi', 'e', 'tau'):
                return K(getattr(math, name))
        if mod == 'typing' and name == 'TYPE_CHECKING':
            return FALSE
        if mod == 're' and name.isupper():
            v = getattr(re, name, None)
            if v is not None:
                return N(int(v))
        if mod == 'sys' and name == 'maxsize':
            return N(2 ** 63 - 1)
        if mod == '__future__':
            return NONE
        if mod == 'collections' and name == 'abc':
            return Mo('collections.abc')
        if mod == 'os' and name == 'path':
            return Mo('os.path')
        if mod == 'types' and name == 'NoneType':
            return Bi('types.NoneType')
        if mod == 'collections' and name == 'Counter' and 'mod:_counter' in self.I.base.frames:
            return self.I.base.frames['mod:_counter']['Counter']
        return Bi(mod + '.' + name)

    # ----------------------------------------------------------------- methods
    METHODS = {
        'list': 'append extend insert pop remove clear index count sort reverse copy',
        'deque': 'append appendleft extend extendleft pop popleft clear index count copy rotate remove insert reverse',
        'set': 'add discard remove update clear union intersection difference copy pop issubset issuperset isdisjoint symmetric_difference',
        'frozenset': 'union intersection difference copy issubset issuperset isdisjoint',
        'bytearray': 'append extend insert pop clear copy join hex reverse index count find startswith endswith decode',
        'dict': 'get items keys values pop setdefault update clear copy popitem fromkeys move_to_end',
        'str': 'format join split strip lstrip rstrip startswith endswith replace upper lower count find index isdigit isalpha '
               'isupper islower title capitalize encode partition rpartition rsplit splitlines zfill center ljust rjust isalnum '
               'isdecimal isnumeric isspace casefold swapcase removeprefix removesuffix translate expandtabs rfind rindex format_map isidentifier isascii',
        'bytes': 'release cast tolist isalnum isalpha isdigit upper lower title zfill center translate removeprefix removesuffix rpartition rsplit splitlines rfind rindex capitalize swapcase islower isupper isspace istitle expandtabs join hex decode startswith endswith find index count split strip replace rstrip lstrip ljust rjust tobytes fromhex partition',
        'tuple': 'count index',
        'int': 'to_bytes bit_length bit_count conjugate as_integer_ratio is_integer',
        'float': 'is_integer hex as_integer_ratio conjugate',
    }

    def method(self, v, name, st, node):
        I = self.I
        if isinstance(v, R):
            r = st.heap[v.oid]
            if isinstance(r, FileRec):
                if name in ('read', 'write', 'getvalue', 'getbuffer', 'close', 'seek', 'tell', 'flush', 'readinto', 'truncate', 'writelines', 'readable', 'writable', '__enter__', '__exit__'):
                    return [(st, Bi('file.' + name, v))]
                if name == 'closed':
                    return [(st, K(r.state == 'closed'))]
                return [(st, I.unk('file.' + name, node))]
            if isinstance(r, GenRec):
                return [(st, Bi('gen.' + name, v))]
            if isinstance(r, ExcRec):
                if name == 'args':
                    return [(st, T(r.args) if r.args else I.unk('arguments of an exception', node))]
                if name in ('with_traceback', 'add_note'):
                    return [(st, Bi('exc.' + name, v))]
                if isinstance(r.cls, ClassInfo):
                    a = r.cls.lookup(name)
                    if isinstance(a, Fn):
                        return [(st, Bm(v, a))]
                    if a is not None:
                        return [(st, a)]
                return [(st, I.unk('attribute of an exception', node))]
        t = self.typename(v, st)
        if t == 'bool':
            t = 'int'
        if isinstance(v, N) and name in ('numerator', 'real'):
            return [(st, v)]
        if isinstance(v, N) and name == 'denominator':
            return [(st, N(1))]
        if isinstance(v, N) and name == 'imag':
            return [(st, N(0))]
        if isbytes(v) and name == 'nbytes':
            return [(st, N(self.blen(v)))]
        if isinstance(v, K) and isinstance(v.v, float) and name in ('real', 'imag'):
            return [(st, v if name == 'real' else K(0.0))]
        if name == '__class__':
            return [(st, Bi('builtins.' + t))] if t else [(st, I.unk('__class__', node))]
        if isinstance(v, Bi):
            return self.bi_attr(v, name, st, node)
        if isinstance(v, (Fn, Bm)):
            if name in ('__name__', '__qualname__'):
                f = v.fn if isinstance(v, Bm) else v
                return [(st, K(f.name))]
            if name == '__doc__':
                return [(st, NONE)]
            f = v.fn if isinstance(v, Bm) else v
            at = st.frames.get('$attr:' + f.key, {})
            if name in at:
                return [(st, at[name])]
            if name in ('__dict__', '__module__', '__defaults__', '__kwdefaults__', '__code__', '__closure__', '__globals__', '__wrapped__', '__annotations__',
                        '__get__', '__call__', '__self__', '__func__') or name.startswith('cache_'):
                if name == '__annotations__' and isinstance(f.node, ast.FunctionDef):
                    ar = f.node.args
                    nodes = [(a.arg, a.annotation) for a in ar.posonlyargs + ar.args + ar.kwonlyargs if a.annotation is not None]
                    out = []
                    for s, vs in I.evs([x for _, x in nodes], st, 'mod:' + f.mod):
                        s = s.copy()
                        out.append((s, I.new(s, Dct([El(T([K(k), x])) for (k, _), x in zip(nodes, vs)]))))
                    return out
                return [(st, I.unk('function attribute', node))]
            return I.throw(st, 'AttributeError', node)
        ms = self.METHODS.get(t)
        if isinstance(v, K) and isinstance(v.v, float) and name in ('hex', 'as_integer_ratio'):
            return [(st, Bi('floatcall.' + name, v))]
        if ms is not None:
            if name in ms.split():
                return [(st, Bi('m.' + name, v))]
            if name.startswith('__') and name.endswith('__'):
                return [(st, Bi('dunder.' + name, v))]
            return I.throw(st, 'AttributeError', node)
        if t == 'range' and name in ('index', 'count', 'start', 'stop', 'step'):
            if name in ('index', 'count') and all(isinstance(g, El) for g in st.heap[v.oid].segs):
                return [(st, Bi('m.' + name, T([g.v for g in st.heap[v.oid].segs])))]
            return [(st, I.unk('range.' + name, node))]
        if t in ('iterator', 'range'):
            return [(st, Bi('dunder.' + name, v))]
        return I.throw(st, 'AttributeError', node)

    def bi_attr(self, v, name, st, node):
        I = self.I
        if v.name == 're.pattern':
            if name in ('match', 'fullmatch', 'search', 'findall', 'finditer', 'sub', 'split'):
                return [(st, Bi('pat.' + name, v))]
            if name == 'pattern':
                return [(st, v.data[0])]
            return [(st, I.unk('pattern attribute', node))]
        if v.name == 're.match':
            return [(st, Bi('match.' + name, v))] if name not in ('lastgroup', 'lastindex', 'string', 're', 'pos', 'endpos', 'regs') else [(st, I.unk('match.' + name, node))]
        if v.name == 'propobj' and name in ('setter', 'getter', 'deleter'):
            return [(st, Bi('propmethod', None, [K(name)]))]
        if v.name == 'builtins.property' and name in ('setter', 'getter'):
            return [(st, Bi('propmethod', None, [K(name)]))]
        if v.name.startswith('builtins.') and name == '__name__':
            return [(st, K(v.name[9:]))]
        if v.name == 'itertools.chain' and name == 'from_iterable':
            return [(st, Bi('itertools.chain.from_iterable'))]
        if v.name.startswith('builtins.'):
            return [(st, Bi('unbound.' + v.name[9:] + '.' + name))]
        return [(st, Bi(v.name + '.' + name))]

    # ------------------------------------------------------------------- calls
    def call(self, f, args, kw, st, node):
        I = self.I
        n = f.name
        if n.startswith('m.') or n.startswith('dunder.'):
            return self.call_method(f, args, kw, st, node)
        if n.startswith('unbound.'):
            _, t, name = n.split('.', 2)
            if t == 'int' and name == 'from_bytes':
                return self.int_from_bytes(args, kw, st, node)
            if t == 'bytes' and name == 'fromhex' and isinstance(args[0], K):
                try:
                    return [(st, K(bytes.fromhex(args[0].v)))]
                except ValueError:
                    return I.throw(st, 'ValueError', node)
            if t == 'float' and name == 'fromhex':
                return [(st, I.unk('float.fromhex', node))]
            if t == 'dict' and name == 'fromkeys':
                out = []
                for s, segs in self.segs(args[0], st, node):
                    d = args[1] if len(args) > 1 else NONE
                    s = s.copy()
                    if all(isinstance(g, El) for g in segs):
                        seen, es = set(), []
                        for g in segs:
                            if g.v.key not in seen:
                                seen.add(g.v.key)
                                es.append(El(T([g.v, d])))
                        out.append((s, I.new(s, Dct(es))))
                    else:
                        out.append((s, I.unk('dict.fromkeys', node)))
                return out
            if t == 'object':
                return self.call(Bi('object.' + name, args[0] if args else None), args[1:], kw, st, node)
            if t == 'str' and name == 'maketrans':
                return [(st, I.unk('maketrans', node))]
            if not args:
                return I.throw(st, 'TypeError', node)
            out = []
            for s, m in self.method(args[0], name, st, node):
                out += I.call(m, list(args[1:]), kw, s, node)
            return out
        if n.startswith('floatcall.'):
            try:
                r = getattr(f.recv.v, n[10:])()
            except (ValueError, OverflowError) as e:
                return I.throw(st, type(e).__name__, node)
            return [(st, K(r) if isinstance(r, str) else T([N(i) for i in r]))]
        if n == 'namedtuple_make':
            out = []
            for s, segs in self.segs(args[0], st, node):
                if all(isinstance(g, El) for g in segs):
                    out += I.call(f.recv, [g.v for g in segs], {}, s, node)
                else:
                    out.append((s, I.unk('_make', node)))
            return out
        if n.startswith('object.'):
            name = n[7:]
            if name in ('__init__', '__init_subclass__'):
                return [(st, NONE)]
            if name == '__setattr__':
                a = ([f.recv] if f.recv is not None else []) + list(args)
                if len(a) == 3 and isobj(a[0], st) and isinstance(a[1], K):
                    return [(s, NONE) for s in I.raw_setattr(a[0], a[1].v, a[2], st, node, force=True)]
            if name == '__eq__' and f.recv is not None:
                return [(st, K(True) if f.recv.key == args[0].key else Bi(NOTIMPL))]
            if name == '__new__' and args and isinstance(args[0], Cl):
                st = st.copy()
                return [(st, I.new(st, Obj(args[0].info)))]
            if name == '__repr__':
                return [(st, mkstr([('fmt', f.recv, 'repr')]))]
            if name in ('__iter__', '__len__', '__hash__', '__lt__', '__le__', '__gt__', '__ge__', '__getattribute__'):
                if name == '__getattribute__' and isobj(f.recv, st) and isinstance(args[0], K):
                    return I.getattr_(f.recv, args[0].v, st, node)
                return [(st, I.unk(n, node))]
        if n in self.DUNDER and args and isobj(args[0], st):
            for d in self.DUNDER[n]:
                g = st.heap[args[0].oid].cls.lookup(d)
                if g is not None:
                    return I.call(Bm(args[0], g), list(args[1:]), kw, st, node)
            if n == 'builtins.float':
                return I.throw(st, 'TypeError', node)
        h = getattr(self, 'f_' + n.replace('.', '_'), None)
        if h is not None:
            return h(f, list(args), kw, st, node)
        if n.split('.')[0] == 'operator':
            return self.operator_(n.split('.')[-1], args, kw, st, node, f)
        if n.startswith('builtins.') and isinstance(getattr(builtins, n[9:], None), type) and issubclass(getattr(builtins, n[9:]), BaseException):
            st = st.copy()
            return [(st, I.new(st, ExcRec(n[9:], args), 'exc'))]
        if n.split('.')[0] == 'typing' or n.startswith('warnings.') or n.startswith('logging.'):
            if n == 'typing.cast':
                return [(st, args[1])]
            if n == 'typing.NamedTuple':
                return [(st, I.unk(n, node))]
            return [(st, NONE if not n.startswith('typing') else Bi(n + '()'))]
        if n.split('.')[0] == 'random' or n.endswith('.random'):
            return self.random_(n, args, kw, st, node)
        r = self.folded(n, args, kw, st, node)
        if r is not None:
            return r
        I.unk_calls.append((n, I.loc(node)))
        st = I.havoc(st, args, kw)
        return [(st, I.unk('result of ' + n, node))]

    DUNDER = {'builtins.float': ('__float__', '__index__'), 'builtins.round': ('__round__',), 'math.floor': ('__floor__',),
              'math.ceil': ('__ceil__',), 'math.trunc': ('__trunc__',), 'builtins.divmod': ('__divmod__',)}
    PURE = ('math', 'string', 'unicodedata', 'binascii', 'zlib', 'html', 'textwrap', 'base64', 'cmath', 'statistics', 'colorsys', 'keyword')

    def folded(self, n, args, kw, st, node):
        """a pure library function of given values"""
        mod, _, name = n.rpartition('.')
        if mod not in self.PURE and n not in ('builtins.bin', 'builtins.hex', 'builtins.oct', 'builtins.ascii', 'builtins.complex'):
            return None
        import importlib
        fn = getattr(importlib.import_module(mod), name, None)
        if not callable(fn) or isinstance(fn, type):
            return None
        try:
            pa, pk = [topy(a) for a in args], {k: topy(a) for k, a in kw.items()}
        except ValueError:
            if n == 'builtins.bin' and len(args) == 1 and isinstance(args[0], N):
                return [(st, mkstr([('bin', args[0].p)]))]
            return None
        try:
            return [(st, self.frompy(fn(*pa, **pk), st))]
        except (ValueError, OverflowError, TypeError, ZeroDivisionError, ArithmeticError) as e:
            return self.I.throw(st, type(e).__name__, node)

    def f_math_ldexp(self, f, args, kw, st, node):
        I = self.I
        if len(args) != 2 or not isnum(args[0]) or not isint(args[1]):
            return [(st, I.unk('ldexp', node))]
        out = []
        for s, v in I.binop('**', K(2.0), args[1], st, node):
            out += I.binop('*', args[0], v, s, node)
        return out

    # --------------------------------------------------------------- builtins
    def f_builtins_len(self, f, args, kw, st, node):
        return self.length(args[0], st, node)

    def f_builtins_isinstance(self, f, args, kw, st, node):
        return self.isinstance_(args[0], args[1], st, node)

    def f_builtins_issubclass(self, f, args, kw, st, node):
        a, b = args
        if isinstance(a, Cl) and isinstance(b, Cl):
            return [(st, K(a.info.is_subclass(b.info)))]
        bs = list(b.items) if isinstance(b, T) else [b]
        res = []
        for y in bs:
            if isinstance(a, Cl) and isinstance(y, Cl):
                res.append(a.info.is_subclass(y.info))
            elif all(isinstance(z, Cl) or isinstance(z, Bi) and isinstance(getattr(builtins, z.name[9:], None), type) and z.name.startswith('builtins.') for z in (a, y)):
                py = lambda z: getattr(builtins, z.name[9:]) if isinstance(z, Bi) else None
                if isinstance(y, Cl):
                    res.append(False)
                elif isinstance(a, Cl):
                    own = [getattr(builtins, n) for n in a.info.builtin_bases() if isinstance(getattr(builtins, n, None), type)]
                    res.append(py(y) is object or any(issubclass(o, py(y)) for o in own))
                else:
                    res.append(issubclass(py(a), py(y)))
            else:
                return [(st, self.I.unk('issubclass', node))]
        return [(st, K(any(res)))]

    def f_builtins_abs(self, f, args, kw, st, node):
        v = args[0]
        I = self.I
        if isinstance(v, K) and isinstance(v.v, bool):
            v = asn(v)
        if isinstance(v, N):
            return [(s, N(-v.p if t else v.p)) for s, t in I.split(st, Cond('lt0', v.p))]
        if isinstance(v, K):
            return [(st, K(abs(v.v)))]
        if isinstance(v, F):
            return [(st, mkf('fabs', v.a))]
        if isobj(v, st):
            r = st.heap[v.oid]
            m = I.contracts.get(r.cls.qual)
            if m is not None:
                x = m.op(I, st, '__abs__', v, None, node)
                if x is not None:
                    return x
            g = r.cls.lookup('__abs__')
            if g is not None:
                return I.call(Bm(v, g), [], {}, st, node)
        if isinstance(v, U):
            return [(st, v)]
        return I.throw(st, 'TypeError', node)

    def f_builtins_range(self, f, args, kw, st, node):
        I = self.I
        if any(isinstance(a, U) for a in args):
            return [(st, I.unk('range', node))]
        if not all(isint(a) for a in args):
            return I.throw(st, 'TypeError', node)
        ps = [st.facts.norm(asn(a).p) for a in args]
        cs = [p.ival() for p in ps]
        st = st.copy()
        if None not in cs:
            if len(cs) == 3 and cs[2] == 0:
                return I.throw(st, 'ValueError', node)
            r = range(*cs)
            if len(r) <= 4096:
                return [(st, I.new(st, Lst('range', [El(N(i)) for i in r])))]
        lo = ps[0] if len(ps) > 1 else ZERO
        hi = ps[1] if len(ps) > 1 else ps[0]
        step = cs[2] if len(cs) > 2 else 1
        if step == 1:
            b = st.facts.bounds(hi - lo)
            if b[0] == b[1] and 0 <= b[0] <= 64:
                return [(st, I.new(st, Lst('range', [El(N(lo + i)) for i in range(int(b[0]))])))]
            if b[1] <= 0:
                return [(st, I.new(st, Lst('range', [])))]
            dom = f'range:{lo.key}:{hi.key}'
            i = Poly.atom(Atom('el', (dom, 'i')))
            return [(st, I.new(st, Lst('range', [Star(dom, [Alt([Cond('le0', lo - i), Cond('lt0', i - hi)], [N(i)])])])))]
        if step is not None:
            dom = f'range:{lo.key}:{hi.key}:{step}'
            i = Poly.atom(Atom('el', (dom, 'i')))
            x = lo + i * step
            c = [Cond('le0', -i), Cond('lt0', x - hi) if step > 0 else Cond('lt0', hi - x)]
            return [(st, I.new(st, Lst('range', [Star(dom, [Alt(c, [N(x)])])])))]
        return [(st, I.unk('range', node))]

    def _minmax(self, f, args, kw, st, node, op):
        I = self.I
        key = kw.get('key')
        if isinstance(key, K) and key.v is None:
            key = None

        def pick(s, a, x):
            """python keeps a unless x op a"""
            if isinstance(a, K) and a.v == '%none':
                return [(s, x)]
            out = []
            if key is None and isint(a) and isint(x):
                d = asn(x).p - asn(a).p
                if s.facts.decide(Cond('le0', d if op == '<' else -d)) is True:
                    return [(s, x)]      # on a tie both are the same number
            for s1, (ka, kx) in self._keys(key, [a, x], s, node):
                for s2, v in self.compare(op, kx, ka, s1, node):
                    for s3, t in I.truth(v, s2, node):
                        out.append((s3, x if t else a))
            return out
        if len(args) == 1:
            out = []
            for s, segs in self.segs(args[0], st, node):
                if not segs or not any(isinstance(g, El) for g in segs):
                    # possibly empty
                    for s2, ne in (I.split(s, Cond('ne0', self.seglen(segs))) if segs else [(s, False)]):
                        if ne:
                            continue
                        if 'default' in kw:
                            out.append((s2, kw['default']))
                        else:
                            I.throw(s2, 'ValueError', node)
                    if not segs:
                        continue
                    s3 = s.assume(Cond('ne0', self.seglen(segs)))
                    if s3 is None:
                        continue
                    s = s3
                for s2, v in self.fold(s, segs, K('%none'), pick, node, 'minmax'):
                    if isinstance(v, K) and v.v == '%none':
                        continue
                    out.append((s2, v))
            return out
        outs = [(st, args[0])]
        for x in args[1:]:
            outs = [r for s, a in outs for r in pick(s, a, x)]
        return outs

    def _keys(self, key, vs, st, node):
        if key is None:
            return [(st, vs)]
        outs = [(st, [])]
        for v in vs:
            outs = [(s2, ks + [k]) for s, ks in outs for s2, k in self.I.call(key, [v], {}, s, node)]
        return outs

    def f_builtins_min(self, f, args, kw, st, node):
        return self._minmax(f, args, kw, st, node, '<')

    def f_builtins_max(self, f, args, kw, st, node):
        return self._minmax(f, args, kw, st, node, '>')

    def f_builtins_sum(self, f, args, kw, st, node):
        I = self.I
        init = args[1] if len(args) > 1 else kw.get('start', N(0))
        out = []
        for s, segs in self.segs(args[0], st, node):
            out += self.fold(s, segs, init, lambda s2, a, x: I.binop('+', a, x, s2, node), node, 'sum')
        return out

    def _anyall(self, args, st, node, stop):
        I = self.I
        out = []
        for s, segs in self.segs(args[0], st, node):
            s = s.copy()
            outs = I.iterate(s, segs, lambda s2, e: [('break' if t == stop else 'next', s3, None) for s3, t in I.truth(e, s2, node)],
                             I.site(node) + '.anyall', node)
            for flow, s2, _ in outs:
                out.append((s2, K(stop if flow == 'break' else not stop)))
        return out

    def f_builtins_any(self, f, args, kw, st, node):
        return self._anyall(args, st, node, True)

    def f_builtins_all(self, f, args, kw, st, node):
        return self._anyall(args, st, node, False)

    def f_builtins_int(self, f, args, kw, st, node):
        I = self.I
        if not args:
            return [(st, N(0))]
        v = args[0]
        if isinstance(v, N):
            return [(st, v)]
        if isinstance(v, B):
            return [(s, N(int(t))) for s, t in I.truth(v, st, node)]
        if isinstance(v, K):
            try:
                if len(args) > 1 and isint(args[1]):
                    return [(st, N(int(v.v, asn(args[1]).p.ival())))]
                return [(st, N(int(v.v)))]
            except (ValueError, OverflowError, TypeError) as e:
                return I.throw(st, type(e).__name__, node)
        if isinstance(v, F):
            a = v.a
            if a.kind == 'ffromint':
                return [(st, N(a.args[0]))]
            return [(st, N(Poly.atom(Atom('fint', (a,)))))]
        if isinstance(v, S):
            if len(args) > 1 and not (isint(args[1]) and asn(args[1]).p.ival() == 10):
                return [(st, I.unk('int with a base', node))]
            if len(v.parts) == 1 and v.parts[0][0] == 'sym':
                import regex
                a = v.parts[0][1]
                d = regex.is_int_group(a) if getattr(a, 'kind', None) == 'grp' else None
                if d:
                    return [(st, N(Poly.atom(Atom('strint', (a,)))))]
                c = Cond('b', Atom('isint', (a,), 'bool'))
                out = []
                for s, t in I.split(st, c):
                    if t:
                        out.append((s, N(Poly.atom(Atom('strint', (a,))))))
                    else:
                        I.throw(s, 'ValueError', node)
                return out
            if len(v.parts) == 1 and v.parts[0][0] == 'fmt' and v.parts[0][2] == '' and isinstance(v.parts[0][1], N):
                return [(st, v.parts[0][1])]
            return [(st, I.unk('int of a string', node))]
        if isinstance(v, U):
            return [(st, v)]
        if isobj(v, st):
            for d in ('__int__', '__index__'):
                g = st.heap[v.oid].cls.lookup(d)
                if g is not None:
                    return I.call(Bm(v, g), [], {}, st, node)
        return I.throw(st, 'TypeError', node)

    def f_builtins_float(self, f, args, kw, st, node):
        I = self.I
        if not args:
            return [(st, K(0.0))]
        v = args[0]
        if isinstance(v, F) or (isinstance(v, K) and isinstance(v.v, float)):
            return [(st, v)]
        if isint(v):
            t = fterm(asn(v))
            return [(st, K(t.args[0]) if t.kind == 'fconst' else F(t))]
        if isinstance(v, K):
            try:
                return [(st, K(float(v.v)))]
            except (ValueError, TypeError) as e:
                return I.throw(st, type(e).__name__, node)
        if isinstance(v, U):
            return [(st, v)]
        return [(st, I.unk('float()', node))]

    def f_builtins_bool(self, f, args, kw, st, node):
        if not args:
            return [(st, FALSE)]
        if isinstance(args[0], B):
            return [(st, args[0])]
        return [(s, K(t)) for s, t in self.I.truth(args[0], st, node)]

    def f_builtins_str(self, f, args, kw, st, node):
        if not args:
            return [(st, K(''))]
        if isbytes(args[0]):
            return [(st, self.I.unk('str of bytes', node))]
        return self.str_(args[0], st, node)

    def f_builtins_repr(self, f, args, kw, st, node):
        return self.repr_(args[0], st, node)

    def f_builtins_format(self, f, args, kw, st, node):
        spec = args[1].v if len(args) > 1 and isinstance(args[1], K) else ''
        return [(s, mkstr(ps)) for s, ps in self.fmt(st, args[0], -1, spec, node)]

    def f_builtins_bytes(self, f, args, kw, st, node):
        I = self.I
        if not args:
            return [(st, K(b''))]
        v = args[0]
        if isbytes(v):
            return [(st, v)]
        if isint(v):
            c = asn(v).p.ival()
            if c is not None and 0 <= c < 65536:
                return [(st, K(bytes(c)))]
            return [(st, I.unk('bytes(n)', node))]
        if isinstance(v, R) and isinstance(st.heap[v.oid], Lst) and st.heap[v.oid].kind == 'bytearray':
            ps = self._babytes(st.heap[v.oid].segs)
            return [(st, mkbytes(ps) if ps is not None else I.unk('bytes(bytearray)', node))]
        if isinstance(v, Bi) and v.name == 'memoryview':
            return [(st, v.data[0])]
        out = []
        for s, segs in self.segs(v, st, node):
            if all(isinstance(g, El) and isint(g.v) for g in segs):
                cur = [(s, [])]
                for g in segs:
                    p = asn(g.v).p
                    nx = []
                    for s2, bs in cur:
                        for s3, bad in I.split(s2, Cond('lt0', p)):
                            if bad:
                                I.throw(s3, 'ValueError', node)
                                continue
                            for s4, ok in I.split(s3, Cond('lt0', p - 256)):
                                if ok:
                                    nx.append((s4, bs + [('b', s4.facts.norm(p))]))
                                else:
                                    I.throw(s4, 'ValueError', node)
                    cur = nx
                out += [(s2, mkbytes(bs)) for s2, bs in cur]
            else:
                out.append((s, I.unk('bytes(iterable)', node)))
        return out

    def f_builtins_bytearray(self, f, args, kw, st, node):
        I = self.I
        if args and isint(args[0]):
            c = asn(args[0]).p.ival()
            st = st.copy()
            if c is not None and c <= 4096:
                return [(st, I.new(st, Lst('bytearray', [El(N(0))] * c)))]
            return [(st, I.unk('bytearray(n)', node))]
        out = []
        for s, y in self.f_builtins_bytes(f, args, kw, st, node):
            s = s.copy()
            if isbytes(y):
                out.append((s, I.new(s, Lst('bytearray', self._ba_segs(y)))))
            else:
                out.append((s, y))
        return out

    def _ba_segs(self, y):
        bs = self.bytelist(y)
        if bs is not None:
            return [El(N(b)) for b in bs]
        return [El(y)]

    def f_builtins_memoryview(self, f, args, kw, st, node):
        if isbytes(args[0]):
            return [(st, args[0])]
        if isinstance(args[0], U):
            return [(st, args[0])]
        return [(st, Bi('memoryview', None, [args[0]]))]

    def f_memoryview_tobytes(self, f, args, kw, st, node):
        return [(st, f.recv)]

    def _mkseq(self, kind, args, st, node):
        I = self.I
        if not args:
            st = st.copy()
            return [(st, T([]) if kind == 'tuple' else I.new(st, Lst(kind, ())))]
        out = []
        for s, segs in self.segs(args[0], st, node):
            s = s.copy()
            if kind == 'tuple' and all(isinstance(g, El) for g in segs):
                out.append((s, T([g.v for g in segs])))
            else:
                if kind in ('set', 'frozenset'):
                    seen, es = set(), []
                    for g in segs:
                        if isinstance(g, El):
                            if g.v.key in seen:
                                continue
                            seen.add(g.v.key)
                        es.append(g)
                    segs = es
                out.append((s, I.new(s, Lst('list' if kind == 'tuple' else kind, segs))))
        return out

    def f_builtins_list(self, f, args, kw, st, node):
        return self._mkseq('list', args, st, node)

    def f_builtins_tuple(self, f, args, kw, st, node):
        return self._mkseq('tuple', args, st, node)

    def f_builtins_set(self, f, args, kw, st, node):
        return self._mkseq('set', args, st, node)

    def f_builtins_frozenset(self, f, args, kw, st, node):
        return self._mkseq('frozenset', args, st, node)

    def f_collections_deque(self, f, args, kw, st, node):
        m = args[1] if len(args) > 1 else kw.get('maxlen', NONE)
        if not (isinstance(m, K) and m.v is None):
            return self.I.call(self.stub('bounded_deque'), [*args[:1], *(() if args else (T([]),)), m], {}, st, node)
        return self._mkseq('deque', args, st, node)

    def f_builtins_iter(self, f, args, kw, st, node):
        I = self.I
        if len(args) > 1:
            return I.call(self.stub('iter_until'), list(args), {}, st, node)
        v = args[0]
        if isinstance(v, R) and isinstance(st.heap[v.oid], GenRec):
            return [(st, v)]
        if isinstance(v, R) and isinstance(st.heap[v.oid], Lst) and st.heap[v.oid].kind == 'iter':
            return [(st, v)]
        if isobj(v, st) and st.heap[v.oid].cls.lookup('__next__') is not None and isinstance(st.heap[v.oid].cls.lookup('__iter__'), Fn):
            return I.call(Bm(v, st.heap[v.oid].cls.lookup('__iter__')), [], {}, st, node)
        return self._mkseq('iter', args, st, node)

    def f_builtins_reversed(self, f, args, kw, st, node):
        out = []
        for s, segs in self.segs(args[0], st, node):
            s = s.copy()
            if all(isinstance(g, El) for g in segs):
                out.append((s, self.I.new(s, Lst('iter', segs[::-1]))))
            elif len(segs) == 1 and isinstance(segs[0], Sorted):
                g = segs[0]
                out.append((s, self.I.new(s, Lst('iter', [Unord(g.segs)]))))
                s.imp = s.imp | {'reversed'}
            else:
                s.imp = s.imp | {'reversed'}
                out.append((s, self.I.new(s, Lst('iter', [Unord(segs)]))))
        return out

    def f_builtins_dict(self, f, args, kw, st, node, kind='dict'):
        I = self.I
        st = st.copy()
        d = I.new(st, Dct(kind=kind))
        outs = [st]
        if args:
            a = args[0]
            if isinstance(a, R) and isinstance(st.heap[a.oid], Dct):
                r = st.heap[d.oid] = st.heap[a.oid].copy()
                r.default, r.kind = None, kind
            else:
                nx = []
                for s, segs in self.segs(a, st, node):
                    if all(isinstance(g, El) for g in segs):
                        cur = [s]
                        for g in segs:
                            n2 = []
                            for s2 in cur:
                                for s3, items in I.unpack_all(g.v, s2, node):
                                    n2 += self.dict_set(s3, d, items[0], items[1], node)
                            cur = n2
                        nx += cur
                    else:
                        s = s.copy()
                        s.wr(d.oid).segs = tuple(segs)
                        nx.append(s)
                outs = nx
        for k, v in kw.items():
            outs = [s2 for s in outs for s2 in self.dict_set(s, d, K(k), v, node)]
        return [(s, d) for s in outs]

    def f_collections_OrderedDict(self, f, args, kw, st, node):
        return self.f_builtins_dict(f, args, kw, st, node)

    def f_collections_defaultdict(self, f, args, kw, st, node):
        I = self.I
        st = st.copy()
        fac = args[0] if args else None
        multi = isinstance(fac, Bi) and fac.name == 'builtins.list'
        d = I.new(st, Dct((), fac if not (isinstance(fac, K)) else None, multi, 'defaultdict'))
        if len(args) > 1:
            st.imp = st.imp | {'initialised defaultdict'}
        return [(st, d)]

    def f_builtins_sorted(self, f, args, kw, st, node):
        out = []
        for s, l in self._mkseq('list', args[:1], st, node):
            out += [(s2, l) for s2, _ in self.sort_list(l, kw, s, node)]
        return out

    def sort_list(self, ref, kw, st, node):
        """in place stable sort -> [(state, None)]"""
        I = self.I
        key = kw.get('key')
        if isinstance(key, K) and key.v is None:
            key = None
        rev = kw.get('reverse', FALSE)
        if not (isinstance(rev, K) or (isinstance(rev, N) and rev.p.is_const())):
            return [(st, I.unk('sort direction', node))]
        rev = bool(rev.v) if isinstance(rev, K) else bool(rev.p.ival())
        self.note_write(ref, st, node)
        r = st.heap[ref.oid]
        if isinstance(r, View):
            st = st.copy()
            st.imp = st.imp | {'sorting a list inside a dictionary'}
            return [(st, NONE)]
        segs = r.segs
        if not segs or (len(segs) == 1 and isinstance(segs[0], El)):
            return [(st, NONE)]
        flat = []
        for g in segs:
            if isinstance(g, (Sorted, Unord)):
                flat += list(g.segs)
            else:
                flat.append(g)
        unord = any(isinstance(g, Unord) for g in segs)
        if all(isinstance(g, El) for g in flat) and len(flat) <= 16 and not I.hooks.get('$nosortexpand'):
            return self.insertion_sort(ref, [g.v for g in flat], key, rev, st, node)
        if all(isinstance(g, El) for g in flat) and not I.hooks.get('$nosortexpand'):
            r = self.decided_sort(ref, [g.v for g in flat], key, rev, st, node)
            if r is not None:
                return r
            st = st.copy()
            st.imp = st.imp | {'order of a long list'}
        # keys of the element shapes
        outs = [(st, [])]
        import loops
        for g in flat:
            nx = []
            for s, ks in outs:
                if isinstance(g, El):
                    nx += [(s2, ks + [k[0]]) for s2, k in self._keys(key, [g.v], s, node)]
                elif isinstance(g, Star):
                    cur = [(s, ks)]
                    for a in g.alts:
                        for e in a.elems:
                            c2 = []
                            for s2, k2 in cur:
                                if isinstance(e, Sg):
                                    c2.append((s2, k2 + [U('nested')]))
                                    continue
                                for s3, k in self._keys(key, [e], s2, node):
                                    c2.append((s3, k2 + [k[0]]))
                                    break
                            cur = c2
                    nx += cur
                else:
                    nx.append((s, ks + [U('nested')]))
            outs = nx
        res = []
        for s, ks in outs:
            s = s.copy()
            s.wr(ref.oid).segs = (Sorted([Unord(flat)] if unord else flat, ks, rev),)
            res.append((s, NONE))
        return res

    def decided_sort(self, ref, items, key, rev, st, node):
        """sort a long list when the state decides every comparison made, else None"""
        I = self.I
        ks = []
        for x in items:
            r, ex = I.catch(lambda: self._keys(key, [x], st, node))
            if ex or len(r) != 1:
                return None
            st = r[0][0]
            ks.append(r[0][1][0])
        cur = [st]

        class Open(Exception):
            pass
        lib = self

        class W:
            __slots__ = ('i',)

            def __init__(self, i):
                self.i = i

            def __lt__(self, o):
                r, ex = I.catch(lambda: [y for s, v in lib.compare('<', ks[self.i], ks[o.i], cur[0], node) for y in I.truth(v, s, node)])
                if ex or len(r) != 1:
                    raise Open
                cur[0] = r[0][0]
                return r[0][1]
        try:
            order = sorted((W(i) for i in range(len(items))), reverse=rev)
        except Open:
            return None
        s = cur[0].copy()
        s.wr(ref.oid).segs = tuple(El(items[w.i]) for w in order)
        return [(s, NONE)]

    def insertion_sort(self, ref, items, key, rev, st, node):
        I = self.I
        outs = [(st, [])]
        for x in items:
            nx = []
            for s, done in outs:
                # stable: place x after every y with not (x < y)
                def place(s2, i):
                    if i == 0:
                        return [(s2, 0)]
                    res = []
                    for s3, (kx, ky) in self._keys(key, [x, done[i - 1]], s2, node):
                        a, b = (kx, ky) if not rev else (ky, kx)
                        for s4, v in self.compare('<', a, b, s3, node):
                            for s5, t in I.truth(v, s4, node):
                                res += place(s5, i - 1) if t else [(s5, i)]
                    return res
                for s2, i in place(s, len(done)):
                    nx.append((s2, done[:i] + [x] + done[i:]))
            outs = nx
        res = []
        for s, done in outs:
            s = s.copy()
            s.wr(ref.oid).segs = tuple(El(x) for x in done)
            res.append((s, NONE))
        return res

    def f_builtins_enumerate(self, f, args, kw, st, node):
        I = self.I
        start = args[1] if len(args) > 1 else kw.get('start', N(0))
        out = []
        for s, segs in self.segs(args[0], st, node):
            s = s.copy()
            if all(isinstance(g, El) for g in segs):
                out.append((s, I.new(s, Lst('iter', [El(T([N(start.p + i), g.v])) for i, g in enumerate(segs)]))))
            else:
                fid = I.newframe(s, I.stack[-1].mod if I.stack else 'builtins', None, None, **{'$comp': True})
                s.frames[fid] = {**s.frames[fid], '%i': start}

                def step(s2, e):
                    i = s2.frames[fid]['%i']
                    s2 = s2.copy()
                    s2.frames[fid] = {**s2.frames[fid], '%i': N(i.p + 1)}
                    return [(s2, T([i, e]))]
                for s2, l in self.map_list(s, segs, step, node, 'enumerate'):
                    s2 = s2.copy()
                    s2.frames.pop(fid, None)
                    out.append((s2, l))
        return out

    def f_builtins_zip(self, f, args, kw, st, node):
        I = self.I
        outs = [(st, [])]
        for a in args:
            outs = [(s2, gs + [g]) for s, gs in outs for s2, g in self.segs(a, s, node)]
        res = []
        strict = kw.get('strict')
        for s, gs in outs:
            s = s.copy()
            if all(isinstance(g, El) for x in gs for g in x):
                if strict is not None and isinstance(strict, K) and strict.v and len({len(x) for x in gs}) > 1:
                    I.throw(s, 'ValueError', node)
                    continue
                res.append((s, I.new(s, Lst('iter', [El(T([g.v for g in z])) for z in zip(*gs)]))))
                continue
            h = I.hooks.get('$zip')
            r = h(I, s, gs, strict, node) if h is not None else None
            if r is not None:
                res += r
                continue
            res += self.zip_stars(s, gs, strict, node)
        return res

    def zip_stars(self, st, gs, strict, node):
        I = self.I
        # identical shapes: pairwise
        if len(gs) == 2 and all(len(x) == 1 and isinstance(x[0], Star) for x in gs) and gs[0][0].dom == gs[1][0].dom \
                and len(gs[0][0].alts) == len(gs[1][0].alts) == 1:
            a, b = gs[0][0].alts[0], gs[1][0].alts[0]
            if len(a.elems) == len(b.elems):
                g = Star(gs[0][0].dom, [Alt(a.conds + b.conds, [T([x, y]) for x, y in zip(a.elems, b.elems)])])
                return [(st, I.new(st, Lst('iter', [g])))]
        st.imp = st.imp | {'zip of sequences of unknown length'}
        return [(st, I.new(st, Lst('iter', [Star('unknown', [Alt([], [T([I.unk('zip', node) for _ in gs])])])])))]

    def f_itertools_zip_longest(self, f, args, kw, st, node):
        I = self.I
        outs = [(st, [])]
        for a in args:
            outs = [(s2, gs + [g]) for s, gs in outs for s2, g in self.segs(a, s, node)]
        res = []
        fv = kw.get('fillvalue', NONE)
        for s, gs in outs:
            s = s.copy()
            if all(isinstance(g, El) for x in gs for g in x):
                m = max([len(x) for x in gs] or [0])
                res.append((s, I.new(s, Lst('iter', [El(T([x[i].v if i < len(x) else fv for x in gs])) for i in range(m)]))))
            else:
                h = I.hooks.get('$zip_longest')
                r = h(I, s, gs, fv, node) if h is not None else None
                if r is not None:
                    res += r
                else:
                    s.imp = s.imp | {'zip_longest'}
                    res.append((s, I.new(s, Lst('iter', [Star('unknown', [Alt([], [T([I.unk('zip', node) for _ in gs])])])]))))
        return res

    def f_builtins_map(self, f, args, kw, st, node):
        I = self.I
        if len(args) > 2:
            out = []
            for s, z in self.f_builtins_zip(f, args[1:], {}, st, node):
                for s2, segs in self.segs(z, s, node):
                    out += self.map_list(s2, segs, lambda s3, e: I.call(args[0], list(e.items) if isinstance(e, T) else [e], {}, s3, node), node, 'map')
            return out
        out = []
        for s, segs in self.segs(args[1], st, node):
            out += self.map_list(s, segs, lambda s2, e: I.call(args[0], [e], {}, s2, node), node, 'map')
        return out

    def f_builtins_filter(self, f, args, kw, st, node):
        I = self.I

        def step(s, e):
            out = []
            vals = [(s, e)] if isinstance(args[0], K) else I.call(args[0], [e], {}, s, node)
            for s2, v in vals:
                for s3, t in I.truth(v, s2, node):
                    out.append((s3, e if t else None))
            return out
        out = []
        for s, segs in self.segs(args[1], st, node):
            out += self.map_list(s, segs, step, node, 'filter')
        return out

    def f_builtins_next(self, f, args, kw, st, node):
        I = self.I
        v = args[0]
        if isinstance(v, R):
            r = st.heap[v.oid]
            if isinstance(r, GenRec):
                # materialise once
                out = []
                for s, segs in self.gen_segs(v, st, node):
                    s = s.copy()
                    s.heap[v.oid] = Lst('iter', segs)
                    out += self.f_builtins_next(f, args, kw, s, node)
                return out
            if isinstance(r, Lst) and r.kind == 'iter':
                if not r.segs:
                    if len(args) > 1:
                        return [(st, args[1])]
                    return I.throw(st, 'StopIteration', node)
                if isinstance(r.segs[0], El):
                    st = st.copy()
                    st.wr(v.oid).segs = r.segs[1:]
                    return [(st, r.segs[0].v)]
            if isinstance(r, Obj):
                g = r.cls.lookup('__next__')
                if g is not None:
                    return I.call(Bm(v, g), [], {}, st, node)
        st = st.copy()
        st.imp = st.imp | {'next()'}
        return [(st, I.unk('next()', node))]

    def f_builtins_type(self, f, args, kw, st, node):
        v = args[0]
        if len(args) > 1:
            return [(st, self.I.unk('type()', node))]
        if isobj(v, st):
            return [(st, Cl(st.heap[v.oid].cls))]
        t = self.typename(v, st)
        if t:
            return [(st, Bi('builtins.' + t if t != 'NoneType' else 'types.NoneType'))]
        return [(st, self.I.unk('type()', node))]

    def f_builtins_getattr(self, f, args, kw, st, node):
        I = self.I
        if not isinstance(args[1], K):
            return [(st, I.unk('getattr', node))]
        if len(args) < 3:
            return I.getattr_(args[0], args[1].v, st, node)
        r, ex = I.catch(lambda: I.getattr_(args[0], args[1].v, st, node))
        out = list(r)
        for e in ex:
            if e.isa('AttributeError'):
                out.append((e.st, args[2]))
            else:
                I.sinks[-1].append(e)
        return out

    def f_builtins_hasattr(self, f, args, kw, st, node):
        I = self.I
        if not isinstance(args[1], K) or isinstance(args[0], U):
            return [(st, I.unk('hasattr', node))]
        r, ex = I.catch(lambda: I.getattr_(args[0], args[1].v, st, node))
        out = [(s, TRUE) for s, _ in r]
        for e in ex:
            if e.isa('AttributeError'):
                out.append((e.st, FALSE))
            else:
                I.sinks[-1].append(e)
        return out

    def f_builtins_setattr(self, f, args, kw, st, node):
        if isinstance(args[1], K):
            return [(s, NONE) for s in self.I.setattr_(args[0], args[1].v, args[2], st, node)]
        return [(self.I.havoc(st, args, kw), NONE)]

    def f_builtins_callable(self, f, args, kw, st, node):
        return [(st, K(isinstance(args[0], (Fn, Bm, Bi, Cl))))]

    def f_builtins_round(self, f, args, kw, st, node):
        I = self.I
        v = args[0]
        if isinstance(v, N) or (isinstance(v, K) and isinstance(v.v, bool)):
            return [(st, asn(v))] if len(args) == 1 else [(st, I.unk('round', node))]
        if isinstance(v, K):
            nd = args[1] if len(args) > 1 else None
            if nd is None:
                return [(st, N(round(v.v)))]
            if isint(nd) and asn(nd).p.ival() is not None:
                return [(st, K(round(v.v, asn(nd).p.ival())))]
        if isinstance(v, F):
            if len(args) > 1 and not (isinstance(args[1], K) and args[1].v is None):
                return [(st, mkf('froundn', v.a, fterm(args[1])))]
            return [(st, N(Poly.atom(Atom('fround', (v.a,)))))]
        return [(st, I.unk('round', node))]

    def f_builtins_divmod(self, f, args, kw, st, node):
        out = []
        for s, q in self.I.binop('//', args[0], args[1], st, node):
            for s2, r in self.I.binop('%', args[0], args[1], s, node):
                out.append((s2, T([q, r])))
        return out

    def f_builtins_pow(self, f, args, kw, st, node):
        if len(args) == 3:
            try:
                n = [topy(a) for a in args]
                if all(isinstance(x, int) for x in n) and n[2] and (n[1] >= 0 or math.gcd(n[0], n[2]) == 1):
                    return [(st, N(pow(*n)))]
            except ValueError:
                pass
            return [(st, self.I.unk('pow with modulus', node))]
        return self.I.binop('**', args[0], args[1], st, node)

    def f_builtins_ord(self, f, args, kw, st, node):
        v = args[0]
        if isinstance(v, K) and isinstance(v.v, (str, bytes)) and len(v.v) == 1:
            return [(st, N(ord(v.v)))]
        bs = self.bytelist(v) if isbytes(v) else None
        if bs and len(bs) == 1:
            return [(st, N(bs[0]))]
        if isbytes(v):
            # a single symbolic byte, otherwise TypeError
            out = []
            for s, one in self.I.split(st, Cond('eq0', self.blen(v) - 1)):
                if one:
                    out += self.from_bytes(self.norm_bytes(v, s), 'big', False, s, node)
                else:
                    self.I.throw(s, 'TypeError', node)
            return out
        return [(st, self.I.unk('ord', node))]

    def f_builtins_chr(self, f, args, kw, st, node):
        c = asn(args[0]).p.ival() if isint(args[0]) else None
        if c is not None and 0 <= c < 0x110000:
            return [(st, K(chr(c)))]
        return [(st, self.I.unk('chr', node))]

    def f_builtins_hash(self, f, args, kw, st, node):
        v = args[0]
        if isobj(v, st):
            g = st.heap[v.oid].cls.lookup('__hash__')
            if g is not None and isinstance(g, Fn):
                return self.I.call(Bm(v, g), [], {}, st, node)
            if st.heap[v.oid].cls.lookup('__eq__') is not None:
                return self.I.throw(st, 'TypeError', node)
        try:
            # numbers hash alike in every run; text does not
            h = hash(self.plain_number(v, st))
        except Unfold:
            return [(st, N(Poly.atom(Atom('hash', (self.I.deepkey(st, v),)))))]
        return [(st, N(h))]

    def plain_number(self, v, st):
        if isint(v):
            i = asn(v).p.ival()
            if i is not None:
                return i
        elif isinstance(v, K) and isinstance(v.v, float) and v.v == v.v:
            return v.v
        elif isinstance(v, T) and v.items:
            return tuple(self.plain_number(x, st) for x in v.items)
        raise Unfold()

    def f_builtins_id(self, f, args, kw, st, node):
        v = args[0]
        if isinstance(v, R):
            ad = self.I.addr
            return [(st, N(ad.setdefault(v.oid, 0x7f5a10002000 + 80 * len(ad))))]
        return [(st, N(Poly.atom(Atom('id', (v.key,)))))]

    def f_builtins_print(self, f, args, kw, st, node):
        self.I.events.append(('print', self.I.loc(node)))
        return [(st, NONE)]

    def f_builtins_staticmethod(self, f, args, kw, st, node):
        return [(st, args[0])]

    def f_builtins_object(self, f, args, kw, st, node):
        st = st.copy()
        return [(st, self.I.new(st, ExcRec('object', ()), 'obj'))]

    def f_builtins_slice(self, f, args, kw, st, node):
        a = list(args)
        a = [NONE, a[0], NONE] if len(a) == 1 else [a[0], a[1], NONE] if len(a) == 2 else a
        return [(st, Bi('sliceobj', None, a))]

    def f_builtins_open(self, f, args, kw, st, node):
        stub = self.I.base.frames.get('mod:argparse') if getattr(self.I, 'base', None) is not None else None
        if stub and 'open' in stub:
            return self.I.call(stub['open'], list(args), kw, st, node)
        self.I.events.append(('open', self.I.loc(node)))
        return [(st, self.I.unk('open', node))]

    def f_builtins_property(self, f, args, kw, st, node):
        return [(st, self.I.unk('property()', node))]

    # ------------------------------------------------------------ int and bytes
    def _arg(self, args, kw, i, name, default=None):
        if len(args) > i:
            return args[i]
        return kw.get(name, default)

    def int_from_bytes(self, args, kw, st, node):
        I = self.I
        v = self._arg(args, kw, 0, 'bytes')
        e = self._arg(args, kw, 1, 'byteorder', K('big'))
        sg = kw.get('signed', FALSE)
        if isinstance(v, U) or not isinstance(e, K) or not isinstance(sg, K):
            return [(st, I.unk('int.from_bytes', node))]
        out = []
        if isbytes(v):
            return self.from_bytes(self.norm_bytes(v, st), e.v, sg.v, st, node)
        for s, y in self.f_builtins_bytes(None, [v], {}, st, node):
            out += self.from_bytes(y, e.v, sg.v, s, node) if isbytes(y) else [(s, y)]
        return out

    # ------------------------------------------------------------------ context
    def enter(self, cm, st, node):
        I = self.I
        if isinstance(cm, R):
            r = st.heap[cm.oid]
            if isinstance(r, FileRec):
                def close(s, e):
                    s = s.copy()
                    s.wr(cm.oid).state = 'closed'
                    return [(s, False)]
                return [(st, cm, close)]
            if isinstance(r, Obj) and r.cls.lookup('__enter__') is not None:
                out = []
                ex = r.cls.lookup('__exit__')

                def close2(s, e):
                    if ex is None:
                        return I.throw(s, 'AttributeError', node)
                    if e is None:
                        return [(s2, False) for s2, _ in I.call(Bm(cm, ex), [NONE, NONE, NONE], {}, s, node)]
                    kind = e.cls if isinstance(e.cls, V) else Cl(e.cls) if not isinstance(e.cls, str) else Bi('builtins.' + e.cls)
                    s = s.copy()
                    val = I.new(s, ExcRec(e.cls, e.args), 'exc')
                    out = []
                    for s2, v in I.call(Bm(cm, ex), [kind, val, I.unk('traceback', node)], {}, s, node):
                        out += I.truth(v, s2, node)
                    return out
                for s, v in I.call(Bm(cm, r.cls.lookup('__enter__')), [], {}, st, node):
                    out.append((s, v, close2))
                return out
        st = st.copy()
        if isbytes(cm) or isinstance(cm, Bi) and cm.name in ('memoryview', 'contextlib.nullcontext()'):
            return [(st, cm, lambda s, e: [(s, False)])]
        st.imp = st.imp | {'context manager'}
        return [(st, I.unk('context manager', node), lambda s, e: [(s, False)])]
