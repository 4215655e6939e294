"""Histories of a track (additions and observations in any order) and what they must lead to."""
from fractions import Fraction
from oblig import *
from check import Out, NODE

DENS = (1, 2, 4, 8, 16, 32, 64, 1024, 2 ** 17, 2 ** 40)


def const(x):
    return Poly.const(x)


def a_note(rnd, tight):
    dd = rnd.choice(DENS[:6])
    dn = rnd.choice((0, 1, 1, 1, 2, 3, 5, 7, dd, 3 * dd, 0))
    return (rnd.choice((0, 1, 2, -1, 12) if tight else tuple(range(-24, 40))), (dn, dd), rnd.choice((0.0, 0.25, 0.5, 0.75, 1.0)))


def a_history(rnd, size, tight=True, where=None):
    """[(op, ...)]: ('add', kind, notes, position or None, form) or ('look', what)"""
    h, n = [], 0
    vals = (Fraction(0), Fraction(1, 4), Fraction(1, 2), Fraction(1), Fraction(3, 8), Fraction(2))
    if rnd.random() < 0.3:      # positions close to each other
        vals = (Fraction(0), Fraction(1, 1024), Fraction(3, 1024), Fraction(1, 64), Fraction(1, 32), Fraction(257, 1024))
    while n < size:
        r = rnd.random()
        if r < 0.2 and h:
            h.append(('look', rnd.choice(('iter', 'iter', 'len', 'length', 'eq', 'repr', 'str', 'half', 'cross'))))
            continue
        kind = rnd.choice(('one',) * 6 + ('list', 'tuple', 'list3', 'iter'))
        m = {'one': 1, 'list': 2, 'tuple': rnd.choice((1, 2)), 'list3': 3, 'iter': rnd.choice((1, 2, 3))}[kind]
        if rnd.random() < 0.04:
            m, kind = 0, 'list'
        notes = [a_note(rnd, tight) for _ in range(m)]
        if n and rnd.random() < 0.15 and m == 1:
            old = [x for x in h if x[0] == 'add' and x[2]]
            if old:
                notes = [rnd.choice(rnd.choice(old)[2])]
        if m > 1 and rnd.random() < 0.25:
            notes[-1] = notes[0]
        if rnd.random() < 0.25:
            pos = None
        else:
            d = rnd.choice(DENS)
            if tight and rnd.random() < 0.7:
                v = rnd.choice(vals)
                while d % v.denominator:
                    d = rnd.choice(DENS)
                pos = (v.numerator * d // v.denominator, d)
            else:
                pos = (rnd.randrange(0, 4 * d + 1), d)
        h.append(('add', kind, notes, pos, rnd.choice(('tuple', 'sig', 'sig', 'list', 'kw', 'iter'))))
        n += m
    if rnd.random() < 0.4:
        h.append(('look', rnd.choice(('iter', 'iter', 'len', 'length', 'eq', 'repr', 'str', 'half', 'cross'))))
    if rnd.random() < 0.15:
        h = [deep(rnd, op) if op[0] == 'add' and rnd.random() < 0.4 else op for op in h]
    return h


def deep(rnd, op):
    """the same addition with large denominators, or with tiny times"""
    def far(x):
        if x is None or rnd.random() < 0.3:
            return x
        k = 2 ** rnd.choice((31, 40, 64, 100, 201, 210, 1100))
        return (x[0] * (k if rnd.random() < 0.5 else rnd.choice((1, k + 1))), x[1] * k)
    _, kind, notes, pos, form = op
    return ('add', kind, [(p, far(d), v) for p, d, v in notes], far(pos), form)


def model(h):
    """-> sorted [(position, pitch, duration, velocity)], length"""
    items, end = [], Fraction(0)
    for op in h:
        if op[0] != 'add':
            continue
        pos = end if op[3] is None else Fraction(*op[3])
        for p, d, v in op[2]:
            items.append((pos, p, Fraction(*d), v))
            end = max(end, pos + Fraction(*d))
    items.sort()
    return items, end


def expected(sg, items):
    return ('trk', sg, [(('sigv', const(1) * p), ('note', ('tone', const(q)), ('sigv', const(1) * d), ('f', v))) for p, q, d, v in items])


def text(h):
    out = []
    for op in h:
        if op[0] == 'look':
            out.append({'iter': 'list(t)', 'len': 'len(t)', 'length': 't.length', 'eq': 't == t', 'repr': 'repr(t)', 'str': 'str(t)', 'half': 'next(iter(t))', 'cross': '[(x, y) for x in t for y in t]'}[op[1]])
        else:
            ns = ', '.join(f'Note({p}, {d}, {v})' for p, d, v in op[2])
            if op[1] != 'one':
                ns = f'iter([{ns}])' if op[1] == 'iter' else f'[{ns}]'
            out.append(f't.add({ns})' if op[3] is None else f't.add({ns}, iter({op[3]}))' if op[4] == 'iter' else f't.add({ns}, {op[3]})')
    return '; '.join(out)


def mknote(c, st, p, d, v):
    st, t = c.tone(st, p)
    st, s = c.sig(st, *d)
    return c.note(st, t, s, v)


def once(c, st, xs):
    """an iterator that gives the items only once"""
    o = c.op(st, 'iter', T(list(xs)))[0]
    return o.st, o.v


def fail(outs):
    return [o for o in outs if o.exc is not None]


def onote(p, d, v):
    return ('note', ('tone', const(p)), ('sig', const(d[0]), const(d[1])), ('f', v))


def apply(c, st, t, h, kept=None, seen=None):
    """run a history on the track t -> outcomes; now and then an object is given to the track again;
    `seen` collects (operations so far, kind of observation, outcomes of it)"""
    outs = [Out(st, NONE)]
    made = {}
    for i, op in enumerate(h):
        res = []
        if op[0] == 'look' and seen is not None and outs[0].exc is None:
            seen.append((h[:i], op[1], res))
        for o in outs:
            if o.exc is not None:
                res.append(o)
                continue
            s = o.st
            if op[0] == 'look':
                w = op[1]
                if w == 'iter':
                    for x in c.iter_items(s, t):
                        res.append(x if x.exc is not None else Out(x.st, NONE))
                elif w == 'half':
                    # take one item only
                    for x in c.op(s, 'iter', t):
                        res += [x] if x.exc is not None else c.run(x.st, Bi('builtins.next'), [x.v, NONE])
                elif w == 'length':
                    res += c.attr(s, t, 'length')
                elif w == 'eq':
                    res += c.op(s, '==', t, t)
                elif w == 'cross':
                    res += c.run(s, c.mod('_support', 'crossed'), [t])
                else:
                    res += c.op(s, w, t)
                continue
            ns = []
            for p, d, v in op[2]:
                r = made.get((p, d, v))
                if r is None or (i + p) % 3 == 0 or s.heap.get(r.oid) is None:
                    s, r = mknote(c, s, p, d, v)
                    made[p, d, v] = r
                ns.append(r)
            if op[1] == 'one':
                what = ns[0]
            elif op[1] == 'tuple':
                what = T(ns)
            elif op[1] == 'iter':
                s, what = once(c, s, ns)
            else:
                s = s.copy()
                what = c.I.new(s, Lst('list', [El(x) for x in ns]))
            if kept is not None:
                for j, r in enumerate(ns):
                    kept[f'note {j} of addition {i}'] = (r, onote(*op[2][j]))
                if isinstance(what, R) and op[1] not in ('one', 'iter'):
                    kept[f'list of addition {i}'] = (what, ('seq', 'list', [onote(*x) for x in op[2]]))
            args, kw = [what], {}
            if op[3] is not None:
                n, d = op[3]
                f = op[4]
                if f == 'sig':
                    w = made.get(op[3])
                    if w is None or s.heap.get(w.oid) is None:
                        s, w = c.sig(s, n, d)
                        made[op[3]] = w
                    if kept is not None:
                        kept[f'position of addition {i}'] = (w, ('sig', const(n), const(d)))
                elif f == 'list':
                    s = s.copy()
                    w = c.I.new(s, Lst('list', [El(N(const(n))), El(N(const(d)))]))
                    if kept is not None:
                        kept[f'position of addition {i}'] = (w, ('seq', 'list', [('i', const(n)), ('i', const(d))]))
                else:
                    w = T([N(const(n)), N(const(d))])
                if f == 'iter':
                    s, w = once(c, s, [N(const(n)), N(const(d))])
                if f == 'kw':
                    kw = {'where': w}
                else:
                    args.append(w)
            elif op[4] == 'kw':
                kw = {'where': NONE}
            res += c.method(s, t, 'add', args, kw)
        outs = res
    return outs


def observed(c, seen, what, w):
    """the observations made on the way: none disturbs the track and each tells the truth"""
    for h, kind, outs in seen:
        if kind == 'len':
            e = ('i', const(len(model(h)[0])))
        elif kind == 'length':
            e = ('sigv', const(1) * model(h)[1])
        elif kind in ('eq', 'cross'):
            e = ('c', True)
        else:
            continue
        c.demand(what, outs, [((), e)], f'{kind} within {w}')


def seen(c, outs, f):
    res = []
    for o in outs:
        res += [o] if o.exc is not None else f(o.st)
    return res


def build(c, st, t, items, rnd, finer=True):
    """add the items one by one, positions and durations written with other denominators, in a random order"""
    items = list(items)
    rnd.shuffle(items)
    h = []
    for p, q, d, v in items:
        def w(x):
            k = 2 ** rnd.choice((0, 1, 2, 0, 1, 2, 17, 60)) if finer else 1
            return (x.numerator * k, x.denominator * k)
        h.append(('add', 'one', [(q, w(d), v)], w(p), rnd.choice(('tuple', 'sig'))))
        if rnd.random() < 0.2:
            h.append(('look', rnd.choice(('iter', 'length', 'eq'))))
    return apply(c, st, t, h), h
