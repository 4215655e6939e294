"""Sequences of operations on signatures, tones, notes and chords, with the result of each."""
from fractions import Fraction
import operator
from oblig import *
from check import Out

BASE = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}
UP = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
DOWN = ['C', 'Db', 'D', 'Eb', 'E', 'F', 'Gb', 'G', 'Ab', 'A', 'Bb', 'B']
CMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
VALUE = ('exc', ('ValueError',))
GOOD = ('C', 'C4', 'C#4', 'Db4', 'D4', 'B', 'B4', 'Bb', 'Bb4', 'C-1', 'C1', 'C10', 'C04', 'C##4', 'C#b4')
BAD = ('', 'c', 'c4', ' C4', 'C4 ', 'C4\n', 'b', 'bb4', 'B 4', 'H4', 'C--1', 'C+1', 'C4.0', 'C4C4', '4')
SIGS = ((1, 4), (2, 8), (4, 16), (1, 2), (2, 4), (0, 1), (0, 4), (3, 8), (1, 1), (4, 4), (2, 2), (3, 4), (6, 8), (1, 64))
PITCHES = (0, 1, 12, 13, -1, -12, 48, 49, 60, 61)
VELS = (0.0, 1.0, 0.75, 0.5, 0.7500000000000001)
CHORD = {'major': (0, 4, 7), 'minor': (0, 3, 7), 'maj7': (0, 4, 7, 11), 'added9': (0, 4, 14), 'diminished7': (0, 3, 6, 9)}


def const(x):
    return Poly.const(x)


def sigo(s):
    return ('sig', const(s[0]), const(s[1]))


def noteo(p, s, v):
    return ('note', ('tone', const(p)), sigo(s), ('f', v))


def value(x):
    l, r = x[:1], x[1:]
    k = 0
    while r[:1] and r[0] in '#b':
        k += 1 if r[0] == '#' else -1
        r = r[1:]
    return BASE[l] + k + 12 * int(r or 0)


def notation(p, down=False):
    return (DOWN if down else UP)[p % 12] + str(p // 12)


KINDS = ('parse', 'parse', 'bad', 'bad', 'name', 'octave', 'freq', 'sig', 'badsig', 'add', 'mul', 'cmp', 'norm', 'to', 'tcmp', 'trans', 'note', 'ncmp', 'nder', 'ntrans', 'ndur', 'nvel',
         'chord', 'chord', 'badnote', 'badtone', 'text')
GROUPS = (('parse', 'bad'), ('parse', 'bad', 'note', 'chord'), ('sig', 'badsig', 'add', 'mul'), ('norm', 'to', 'sig'), ('cmp', 'norm'), ('tcmp', 'trans', 'ncmp'), ('name', 'text', 'parse'),
          ('octave', 'name', 'trans'), ('freq', 'trans'), ('note', 'badnote', 'nvel', 'ndur'), ('ntrans', 'nvel', 'ndur', 'ncmp', 'nder'), ('chord', 'note', 'badtone'), ('chord',), ('add', 'to', 'ndur'), KINDS, KINDS)


FAR = (1200, -1200, 120000, -120000, 12 * 2 ** 31, -12 * 2 ** 31, 12 * 2 ** 64)


def mixed_up():
    """pairs of different values that look alike to whoever mixes nominator and denominator into one number or text"""
    out = [((6, 4), (3, 8)), ((1, 32), (13, 2)), ((1, 64), (16, 4)), ((5, 2), (3, 4)), ((7, 1), (4, 4)), ((3, 8), (8, 4)), ((1, 2), (2, 1))]
    for e in (3, 4, 5, 6, 7, 8, 10, 12, 14, 16):
        k = 2 ** e
        out.append(((3, 2 * k), (4, k)))                            # n * k + d
        out.append(((40, 8 * k), (44, 4 * k)))
        out.append(((5, k), (5 ^ k ^ k // 2, k // 2)))              # n ^ d
        out.append(((3 + k, 2), (3 + k, 4)))
    for k in (3, 31, 100, 128, 1000, 1024):
        out.append(((3 + 2 * k, 2), (3, 4)))                        # d * k + n
        out.append(((1 + 8 * k, 8), (1, 16)))
    return out


MERSENNE = 2 ** 61 - 1      # numbers that differ by this hash alike
ALIKE = mixed_up() + [((n, d), (n + MERSENNE, d)) for n in (0, 1, 3) for d in (1, 4, 8)]


def pools(rnd):
    """the values the calls of one sequence take their arguments from: few, so that they meet again"""
    few = lambda xs, n: rnd.sample(list(xs), min(n, len(xs)))
    n = rnd.choice((1, 2, 2, 3, 20))
    ps = few(PITCHES, n)
    if rnd.random() < 0.25:
        ps = few([c + s for c in FAR for s in (0, 1, 3, 7)], n)
    pool = dict(p=ps, s=few(SIGS, n), v=few(VELS, n), x=few(GOOD, n), bad=few(BAD, n), chord=few(CHORD, n), op=few(CMP, n), to=few((1, 2, 4, 8, 16, 32, 64, 128), n))
    other = random.Random(repr(rnd.getstate()[1][:3]))
    if other.random() < 0.2:
        pool['s'] = list(other.choice(ALIKE))
        pool['to'] = pool['to'] + [2 ** 17]
    if other.random() < 0.05:
        pool['p'] = [ps[0], ps[0] + other.choice((MERSENNE, -MERSENNE))]
    return pool


def an_op(rnd, kinds=KINDS, pool=None):
    """-> (function of (checker, state) giving outcomes, expected observation, text)"""
    pool = pool or pools(rnd)
    k = rnd.choice(kinds)
    p, q = rnd.choice(pool['p']), rnd.choice(pool['p'])
    a, b = rnd.choice(pool['s']), rnd.choice(pool['s'])
    v, w = rnd.choice(pool['v']), rnd.choice(pool['v'])
    A, B = Fraction(*a), Fraction(*b)
    x = rnd.choice(pool['x'])
    op = rnd.choice(pool['op'])

    def parse(y):
        def go(c, st):
            r = c.attr(st, c.Tone, 'from_notation')[0]
            return c.run(r.st, r.v, [K(y)])
        return go

    def mk(c, st, p, s, v):
        if ('note', p, s, v) in use:
            return st, use['note', p, s, v]
        st, t = tn(p)(c, st)
        st, d = sg(s)(c, st)
        return c.note(st, t, d, v)

    def two(f, g, h):
        def go(c, st):
            st, y = f(c, st)
            st, z = g(c, st)
            return h(c, st, y, z)
        return go
    # the very objects of the pool, or new ones that look the same
    use = pool.get('objs', {}) if rnd.random() < 0.6 else {}
    sg = lambda s: (lambda c, st: (st, use['sig', s]) if ('sig', s) in use else c.sig(st, *s))
    tn = lambda p: (lambda c, st: (st, use['tone', p]) if ('tone', p) in use else c.tone(st, p))
    nt = lambda *s: (lambda c, st: mk(c, st, *s))

    def one(f, h):
        def go(c, st):
            st, y = f(c, st)
            return h(c, st, y)
        return go
    if k == 'parse':
        return parse(x), ('tone', const(value(x))), f'from_notation({x!r})'
    if k == 'bad':
        y = rnd.choice(pool['bad'])
        return parse(y), VALUE, f'from_notation({y!r})'
    if k == 'name':
        down = rnd.random() < 0.5
        return one(tn(p), lambda c, st, t: c.method(st, t, 'to_notation', [TRUE if down else FALSE])), ('s', mkstr([notation(p, down)])), f'Tone({p}).to_notation({down})'
    if k == 'octave':
        return one(tn(p), lambda c, st, t: c.attr(st, t, 'octave')), ('i', const(p // 12)), f'Tone({p}).octave'
    if k == 'freq':
        p = 57 + 12 * rnd.randrange(-3, 4)
        return one(tn(p), lambda c, st, t: c.method(st, t, 'to_frequency', [])), ('f', 440.0 * 2.0 ** ((p - 57) // 12)), f'Tone({p}).to_frequency()'
    if k == 'sig':
        return (lambda c, st: c.run(st, c.Signature, [N(a[0]), N(a[1])])), sigo(a), f'Signature{a}'
    if k == 'badsig':
        y = rnd.choice(((-1, 4), (1, 3), (1, 0), (1, -4), (4, 6)))
        return (lambda c, st: c.run(st, c.Signature, [N(y[0]), N(y[1])])), VALUE, f'Signature{y}'
    if k in ('add', 'mul'):
        o = '+' if k == 'add' else '*'
        return two(sg(a), sg(b), lambda c, st, y, z: c.op(st, o, y, z)), ('sigv', const(1) * (A + B if k == 'add' else A * B)), f'Signature{a} {o} Signature{b}'
    if k == 'cmp':
        return two(sg(a), sg(b), lambda c, st, y, z: c.op(st, op, y, z)), ('c', CMP[op](A, B)), f'Signature{a} {op} Signature{b}'
    if k == 'norm':
        n = (0, 1) if not A else (A.numerator, A.denominator)
        return one(sg(a), lambda c, st, y: c.method(st, y, 'normalized', [])), sigo(n), f'Signature{a}.normalized()'
    if k == 'to':
        d = rnd.choice(pool['to'])
        return one(sg(a), lambda c, st, y: c.method(st, y, 'to', [N(d)])), sigo((a[0] * d // a[1], d)) if d >= a[1] else VALUE, f'Signature{a}.to({d})'
    if k == 'tcmp':
        return two(tn(p), tn(q), lambda c, st, y, z: c.op(st, op, y, z)), ('c', CMP[op](p, q)), f'Tone({p}) {op} Tone({q})'
    if k == 'trans':
        return one(tn(p), lambda c, st, y: c.method(st, y, 'transposed', [N(q)])), ('tone', const(p + q)), f'Tone({p}).transposed({q})'
    if k == 'note':
        if rnd.random() < 0.3:
            return (lambda c, st: c.run(st, c.Note, [N(p)])), noteo(p, (1, 4), 0.75), f'Note({p})'
        y, r = rnd.choice(((K(x), value(x)), (N(p), p)))
        return (lambda c, st: c.run(st, c.Note, [y, T([N(a[0]), N(a[1])]), K(v)])), noteo(r, a, v), f'Note({y!r}, {a}, {v})'
    if k == 'badnote':
        y = rnd.choice((1.5, -0.25, float('nan')))
        return (lambda c, st: c.run(st, c.Note, [N(p), T([N(a[0]), N(a[1])]), K(y)])), VALUE, f'Note({p}, {a}, {y})'
    if k == 'badtone':
        y = rnd.choice((float(p), 0.5, None, str(p)))
        return (lambda c, st: c.run(st, c.Tone, [K(y) if y is not None else NONE])), VALUE, f'Tone({y!r})'
    if k == 'ncmp':
        if rnd.random() < 0.6:
            q = p
            if rnd.random() < 0.6:
                B, b = A, (a[0] * 2, a[1] * 2)
        return two(nt(p, a, v), nt(q, b, w), lambda c, st, y, z: c.op(st, op, y, z)), ('c', CMP[op]((p, A, v), (q, B, w))), f'Note{(p, a, v)} {op} Note{(q, b, w)}'
    if k == 'nder':
        # a note against one made from it
        how = rnd.choice(('velocity', 'duration', 'both', 'transposed'))
        if how == 'velocity':
            v, w = rnd.choice(((v, w), (0.75, 0.7500000000000001), (0.75, 0.76), (0.75, 0.751), (0.5, 0.5000001), (0.0, 1e-300)))
        n2 = {'velocity': (p, a, w), 'duration': (p, b, v), 'both': (p, b, w), 'transposed': (q + p, a, v)}[how]
        x, y = ((n, Fraction(*d), f) for n, d, f in ((p, a, v), n2))

        def der(c, st):
            st, n = mk(c, st, p, a, v)
            outs = [Out(st, n)]
            for m, arg in (('with_velocity', K(w)), ('with_duration', T([N(b[0]), N(b[1])])), ('transposed', N(q))):
                if m[5:] == how or m == how or (how == 'both' and m != 'transposed'):
                    outs = [o2 for o in outs for o2 in ([o] if o.exc is not None else c.method(o.st, o.v, m, [arg]))]
            return [o2 for o in outs for o2 in ([o] if o.exc is not None else c.op(o.st, op, n, o.v))]
        return der, ('c', CMP[op](x, y)), f'Note{(p, a, v)} {op} the one derived from it {n2}'
    if k == 'ntrans':
        return one(nt(p, a, v), lambda c, st, y: c.method(st, y, 'transposed', [N(q)])), noteo(p + q, a, v), f'Note{(p, a, v)}.transposed({q})'
    if k == 'ndur':
        return one(nt(p, a, v), lambda c, st, y: c.method(st, y, 'with_duration', [T([N(b[0]), N(b[1])])])), noteo(p, b, v), f'Note{(p, a, v)}.with_duration({b})'
    if k == 'nvel':
        return one(nt(p, a, v), lambda c, st, y: c.method(st, y, 'with_velocity', [K(w)])), noteo(p, a, w), f'Note{(p, a, v)}.with_velocity({w})'
    if k == 'text':
        return one(tn(p), lambda c, st, y: c.op(st, 'str', y)), ('s', mkstr([notation(p)])), f'str(Tone({p}))'
    nm = rnd.choice(pool['chord'])
    how = rnd.choice(('note', 'note', 'tone', 'int', 'text'))
    kw = {}
    d, s = (1, 4), 0.75
    if how == 'note':
        d, s = a, v
    if rnd.random() < 0.4:
        kw['duration'], d = T([N(b[0]), N(b[1])]), b
    if rnd.random() < 0.4:
        kw['velocity'], s = K(w), w
    r = value(x) if how == 'text' else p

    def chord(c, st):
        f = c.mod('melodia.music.chord', nm)
        if how == 'note':
            st, y = mk(c, st, p, a, v)
        elif how == 'tone':
            st, y = c.tone(st, p)
        else:
            y = N(p) if how == 'int' else K(x)
        return c.run(st, f, [y], kw)
    return chord, ('seq', 'tuple', [noteo(r + i, d, s) for i in CHORD[nm]]), f'{nm}({how} {r}, {", ".join(kw)})'


def objects(c, st, rnd, pool):
    """a few objects of the pool's values, used again and again -> st, {ref: observation}"""
    objs, seen = {}, []
    for s in pool['s']:
        st, r = c.sig(st, *s)
        objs['sig', s] = r
        seen.append((r, sigo(s), f'Signature{s}'))
    for p in pool['p']:
        st, r = c.tone(st, p)
        objs['tone', p] = r
        seen.append((r, ('tone', const(p)), f'Tone({p})'))
    for p in pool['p'][:2]:
        for s in pool['s'][:2]:
            for v in pool['v'][:2]:
                st, r = c.note(st, objs['tone', p], objs['sig', s], v)
                objs['note', p, s, v] = r
                seen.append((r, noteo(p, s, v), f'Note{(p, s, v)}'))
    pool['objs'] = objs
    return st, seen


def sequence(c, name, seed, kinds, steps=None, after=None):
    """several calls one after the other, each with the outcome it has alone; what exists stays as it was (after)"""
    import random
    rnd = random.Random(seed)
    if isinstance(kinds[0], tuple):
        kinds = rnd.choice(kinds)
    pool = pools(rnd)
    st, seen = objects(c, c.state(), rnd, pool)
    outs, done = [Out(st, NONE)], []
    for j in range(steps or rnd.choice((6, 12, 20))):
        op, exp, w = an_op(rnd, kinds, pool)
        if done and rnd.random() < 0.15:
            op, exp, w = rnd.choice(done)
        res = []
        for o in outs[:4]:
            c.recycle = ([x[0] for x in seen], set(o.st.heap)) if c.I.addr else None
            res += op(c, o.st)
        if name:
            c.demand(name, res, [((), exp)], w + (' after ' + '; '.join(x[2] for x in done[-6:]) if done else ''))
        if len(res) == 1 and res[0].exc is None and exp[0] in ('tone', 'sig', 'note', 'seq', 'sigv'):
            seen.append((res[0].v, exp, w))
        outs = [Out(o.exc.st if o.exc is not None else o.st, NONE) for o in res]
        done.append((op, exp, w))
    if after:
        for o in outs[:4]:
            for r, ob, w in seen:
                c.demand(after, [Out(o.st, r)], [((), ob)], f'{w}, seen again after ' + '; '.join(x[2] for x in done[-8:]))


def sequences(c, name, tag, kinds, quick, thorough, after=None):
    for i in range(quick if c.tier == 'quick' else thorough):
        c.guard(name or after, sequence, c, name, f'{c.seed}.{tag}.{i}', kinds, None, after)
