"""Reading the analysed package: source files, classes, scopes."""
import ast
import os


class AnalysisBroken(Exception):
    """the source cannot be analysed at all (does not parse, a public anchor is gone)"""


class ClassInfo:
    def __init__(self, name, qual, mod, node):
        self.name, self.qual, self.mod, self.node = name, qual, mod, node
        self.bases = []          # ClassInfo or builtin type names
        self.attrs = {}          # name -> V (functions are Fn)
        self.props = {}          # name -> {'get': Fn, 'set': Fn}
        self.slots = None
        self.dataclass = None    # dict(frozen=bool, eq=bool, order=bool) or None
        self.fields = []         # dataclass / NamedTuple fields: (name, default V or None)
        self.namedtuple = False
        self.enum = False
        self.total_ordering = False
        self.opaque = False      # metaclass, unknown decorator or unknown base

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def prop(self, name):
        for c in self.mro():
            if name in c.props:
                return c.props[name]
        return None

    def builtin_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, str):
                    out.append(b)
        return out

    def is_subclass(self, other):
        if isinstance(other, ClassInfo):
            return other in self.mro()
        import builtins
        for b in self.builtin_bases():
            bt = getattr(builtins, b, None)
            ot = getattr(builtins, other, None)
            if b == other or (isinstance(bt, type) and isinstance(ot, type) and issubclass(bt, ot)):
                return True
        return other == 'object'

    def all_slots(self):
        """set of slot names, or None when instances have a __dict__"""
        names = set()
        for c in self.mro():
            if c.slots is None:
                return None
            names |= set(c.slots)
        if any(b not in ('object',) for b in self.builtin_bases()):
            return None
        return names


class Module:
    def __init__(self, name, path, tree, src, is_pkg):
        self.name, self.path, self.tree, self.src, self.is_pkg = name, path, tree, src, is_pkg


class Program:
    def __init__(self, root='/repo/src', package='melodia', extra=()):
        self.root = root
        self.modules = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken(f'{base} is missing')
        for top, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    path = os.path.join(top, f)
                    rel = os.path.relpath(path, root)[:-3].split(os.sep)
                    pkg = rel[-1] == '__init__'
                    if pkg:
                        rel = rel[:-1]
                    self._load('.'.join(rel), path, pkg)
        for name, path in extra:
            if not os.path.exists(path):
                raise AnalysisBroken(f'{path} is missing')
            self._load(name, path, False)

    def _load(self, name, path, pkg):
        with open(path, encoding='utf-8') as f:
            src = f.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisBroken(f'{path} does not parse: {e}')
        self.modules[name] = Module(name, path, tree, src, pkg)

    def add_stubs(self, where):
        """library classes that are analysed as source, where the package (or a stand-in) names them"""
        self._load('_lib', os.path.join(where, 'lib.py'), False)
        text = '\n'.join(m.src for m in self.modules.values())
        for word, name, file in (('fractions', 'fractions', 'fractions.py'), ('Counter', '_counter', 'counter.py')):
            if word in text:
                self._load(name, os.path.join(where, file), False)

    def add_source(self, name, src):
        tree = ast.parse(src, name)
        self.modules[name] = Module(name, '<' + name + '>', tree, src, False)


def local_names(fn):
    """names that are local to a function (assigned, not declared global/nonlocal)"""
    names, out = set(), set()
    args = fn.args
    for a in args.posonlyargs + args.args + args.kwonlyargs:
        names.add(a.arg)
    if args.vararg:
        names.add(args.vararg.arg)
    if args.kwarg:
        names.add(args.kwarg.arg)
    body = fn.body if isinstance(fn.body, list) else [fn.body]

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus targets escape, the loop variables do not
            for s in ast.walk(n):
                if isinstance(s, ast.NamedExpr):
                    names.add(s.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out.update(n.names)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in body:
        walk(s)
    return names - out


def is_generator(fn):
    if isinstance(fn, ast.Lambda):
        return False

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        return any(walk(c) for c in ast.iter_child_nodes(n))
    return any(walk(s) for s in fn.body)
