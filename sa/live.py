"""Liveness of local variables at a loop head (syntactic, over-approximated)."""
import ast


def _reads(node, out):
    """names read by an expression (nested functions included)"""
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)):
            out.add(x.id)


def exposed(stmts, defined=frozenset()):
    """(names possibly read before being assigned, names assigned on every normal completion)"""
    exp, d = set(), set(defined)
    for s in stmts:
        e, d2 = _stmt(s, frozenset(d))
        exp |= e
        d = set(d2)
    return exp, frozenset(d)


def _expr(node, defined):
    r = set()
    if node is not None:
        _reads(node, r)
    return r - defined


def _targets(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        r = set()
        for e in t.elts:
            r |= _targets(e)
        return r
    if isinstance(t, ast.Starred):
        return _targets(t.value)
    return set()


def _tread(t, defined):
    """names read by evaluating an assignment target"""
    if isinstance(t, ast.Name):
        return set()
    if isinstance(t, (ast.Tuple, ast.List)):
        r = set()
        for e in t.elts:
            r |= _tread(e, defined)
        return r
    return _expr(t, defined)


def _stmt(s, d):
    if isinstance(s, ast.Assign):
        e = _expr(s.value, d)
        new = set(d)
        for t in s.targets:
            e |= _tread(t, d)
            new |= _targets(t)
        return e, frozenset(new)
    if isinstance(s, ast.AnnAssign):
        if s.value is None:
            return set(), d
        return _expr(s.value, d) | _tread(s.target, d), d | _targets(s.target)
    if isinstance(s, ast.AugAssign):
        e = _expr(s.value, d) | _tread(s.target, d)
        if isinstance(s.target, ast.Name) and s.target.id not in d:
            e.add(s.target.id)
        return e, d
    if isinstance(s, ast.If):
        e = _expr(s.test, d)
        e1, d1 = exposed(s.body, d)
        e2, d2 = exposed(s.orelse, d)
        t1, t2 = _ends(s.body), _ends(s.orelse)
        dd = d2 if t1 and not t2 else d1 if t2 and not t1 else d1 & d2
        return e | e1 | e2, dd
    if isinstance(s, (ast.For, ast.AsyncFor)):
        e = _expr(s.iter, d)
        e1, _ = exposed(s.body, d | _targets(s.target))
        e2, _ = exposed(s.orelse, d)
        return e | e1 | e2 | _tread(s.target, d), d
    if isinstance(s, ast.While):
        e = _expr(s.test, d)
        e1, _ = exposed(s.body, d)
        e2, _ = exposed(s.orelse, d)
        return e | e1 | e2, d
    if isinstance(s, ast.Try):
        e, d1 = exposed(s.body, d)
        for h in s.handlers:
            e |= _expr(h.type, d)
            eh, _ = exposed(h.body, d | ({h.name} if h.name else set()))
            e |= eh
        e2, _ = exposed(s.orelse, d1)
        e3, _ = exposed(s.finalbody, d)
        return e | e2 | e3, d
    if isinstance(s, ast.With):
        e = set()
        for it in s.items:
            e |= _expr(it.context_expr, d)
            if it.optional_vars is not None:
                d = d | _targets(it.optional_vars)
        e1, d1 = exposed(s.body, d)
        return e | e1, d1
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        r = set()
        _reads(s, r)
        return r - d, d | {s.name}
    if isinstance(s, ast.Match):
        e = _expr(s.subject, d)
        for c in s.cases:
            names = {x.name for x in ast.walk(c.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}
            if c.guard is not None:
                e |= _expr(c.guard, d | names)
            _reads(c.pattern, e)
            e1, _ = exposed(c.body, d | names)
            e |= e1
        return e, d
    r = set()
    for x in ast.walk(s):
        if isinstance(x, ast.Name):
            r.add(x.id)
    return r - d, d


def _ends(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def live_at_head(fn, loop):
    """names of fn that may be read at or after the head of loop; None: everything"""
    if fn is None or isinstance(fn, ast.Lambda):
        return None
    live = set()
    if isinstance(loop, ast.While):
        _reads(loop.test, live)
        e, _ = exposed(loop.body)
        live |= e
    elif isinstance(loop, ast.For):
        e, _ = exposed(loop.body, frozenset(_targets(loop.target)))
        live |= e | _tread(loop.target, frozenset())
    else:
        return None
    # what runs after the loop
    par = {}
    for x in ast.walk(fn):
        for c in ast.iter_child_nodes(x):
            par[id(c)] = x
    rest, cur = list(loop.orelse), loop
    while True:
        p = par.get(id(cur))
        if p is None:
            break
        for blk in ('body', 'orelse', 'finalbody', 'handlers'):
            b = getattr(p, blk, None)
            if isinstance(b, list) and any(x is cur for x in b):
                i = [k for k, x in enumerate(b) if x is cur][0]
                if blk != 'handlers':
                    rest += b[i + 1:]
                if isinstance(p, ast.Try):
                    if blk in ('body',):
                        rest += p.orelse
                    rest += p.finalbody
        if isinstance(p, (ast.While, ast.For)):
            rest.append(p)
        if isinstance(p, ast.Try):
            for h in p.handlers:
                for x in h.body:
                    _reads(x, live)
        if p is fn:
            break
        cur = p
    e, _ = exposed(rest)
    live |= e
    # variables captured by nested functions
    from program import local_names
    for x in ast.walk(fn):
        if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
            r = set()
            _reads(x, r)
            nl = set()
            for y in ast.walk(x):
                if isinstance(y, (ast.Nonlocal, ast.Global)):
                    nl.update(y.names)
            live |= (r - local_names(x)) | nl
    return live
