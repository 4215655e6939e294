"""Track: contents, length, equality."""
from props import prop
from props_core import EXC_V, v_of
from oblig import *
from facts import cmp_cond
from poly import sym
import gen_hist

EXC_T = ('exc', ('TypeError',))
SIG44 = ('sig', Poly.const(4), Poly.const(4))


def const(x):
    return Poly.const(x)


def lst(c, st, items, kind='list'):
    st = st.copy()
    return st, c.I.new(st, Lst(kind, [El(x) for x in items]))


def simple(c, st, name, k=2, pitch=None, n=None):
    """a note with unknown pitch, velocity and duration numerator -> st, ref, obs, duration value"""
    if pitch is None:
        st, p = c.int_(st, name + '.pitch')
    else:
        p = as_poly(pitch)
    st, t = c.tone(st, p)
    if n is None:
        st, n = c.int_(st, name + '.n', 0)
    else:
        n = as_poly(n)
    d = const(2 ** k)
    st, s = c.sig(st, n, d)
    st, v = c.flt(st, name + '.vel', 0.0, 1.0)
    st, r = c.note(st, t, s, v)
    return st, r, ('note', ('tone', p), ('sig', n, d), ('f', v)), v_of(n, d)


def track(c, st, *args, **kw):
    return c.one(st, c.Track, list(args), kw)


def adds(c, outs, t, what, where=None, kw=False):
    """continue every outcome with t.add(what[, where])"""
    res = []
    for o in outs:
        if o.exc is not None:
            res.append(o)
            continue
        args, k = [what], {}
        if where is not None:
            if kw:
                k['where'] = where
            else:
                args.append(where)
        res += c.method(o.st, t, 'add', args, k)
    return res


def views(c, outs, t, f):
    """continue every outcome with an observation of the track"""
    res = []
    for o in outs:
        if o.exc is not None:
            res.append(o)
        else:
            res += f(o.st, t)
    return res


def whole(c, outs, t):
    from check import Out
    return [o if o.exc is not None else Out(o.st, t) for o in outs]


def iterated(c, outs, t):
    """continue every outcome with an iteration over the track (its effect is kept)"""
    from check import Out
    res = []
    for o in outs:
        if o.exc is not None:
            res.append(o)
            continue
        for x in c.iter_items(o.st, t):
            res.append(x if x.exc is not None else Out(x.st, NONE))
    return res


def start(st):
    from check import Out
    return [Out(st, NONE)]


def maxcases(xs):
    """[(conds, the greatest)]"""
    out = []
    for i, x in enumerate(xs):
        out.append((tuple(Cond('le0' if j < i else 'lt0', y - x) if j < i or True else None for j, y in enumerate(xs) if j != i), x))
    # strict against later ones, non-strict against earlier ones
    out = []
    for i, x in enumerate(xs):
        cs = []
        for j, y in enumerate(xs):
            if j < i:
                cs.append(Cond('lt0', y - x))
            elif j > i:
                cs.append(Cond('le0', y - x))
        out.append((tuple(cs), x))
    return out


def T2(n, d):
    return T([N(as_poly(n)), N(as_poly(d))])


def item(pos, note):
    return ('sigv', pos), note


@prop('C08')
def c08(c):
    sg = c.sig

    def one(k, kw):
        st, nt, o, dv = simple(c, c.state(), 'a')
        st, t = track(c, st)
        st, n = c.int_(st, 'pos', 0)
        where = T2(n, 2 ** k)
        outs = adds(c, start(st), t, nt, where, kw)
        c.demand('added note', whole(c, outs, t), [((), ('track', SIG44, [item(n * const(2 ** k).inv(), o)]))], f't.add(a, (n, {2 ** k}))')
        c.demand('number of notes', views(c, outs, t, lambda s, t: c.op(s, 'len', t)), [((), ('i', ONE))], 'len(t) after one add')
    for k in (0, 1, 3, 7, 12):
        c.guard('added note', one, k, k % 2 == 0)

    def one_sig():
        st, nt, o = c.symnote(c.state(), 'a')
        st, t = track(c, st)
        st, s, n, d = c.symsig(st, 'pos')
        outs = adds(c, start(st), t, nt, s)
        c.demand('added note', whole(c, outs, t), [((), ('track', SIG44, [item(v_of(n, d), o)]))], 't.add(a, Signature(n, 2**k))')
    c.guard('added note', one_sig)

    def empty():
        st, t = track(c, c.state())
        c.demand('empty track', whole(c, start(st), t), [((), ('track', SIG44, []))], 'Track()')
        c.demand('empty track', c.op(st, 'len', t), [((), ('i', ZERO))], 'len(Track())')
    c.guard('empty track', empty)

    combos = [(0, 0), (3, 3), (2, 4), (4, 2), (0, 6), (6, 0), (1, 5)]

    def two(k1, k2, look):
        st, a, oa, da = simple(c, c.state(), 'a', n=1)
        st, b, ob, db = simple(c, st, 'b', n=3)
        st, t = track(c, st)
        st, n = c.int_(st, 'p1', 0)
        st, m = c.int_(st, 'p2', 0)
        outs = adds(c, start(st), t, a, T2(n, 2 ** k1))
        if look:
            outs = iterated(c, outs, t)
        outs = adds(c, outs, t, b, T2(m, 2 ** k2))
        exp = ('track', SIG44, [item(n * const(2 ** k1).inv(), oa), item(m * const(2 ** k2).inv(), ob)])
        w = f't.add(a, (p1, {2 ** k1})); ' + ('list(t); ' if look else '') + f't.add(b, (p2, {2 ** k2}))'
        c.demand('two notes', whole(c, outs, t), [((), exp)], w)
        c.demand('number of notes', views(c, outs, t, lambda s, t: c.op(s, 'len', t)), [((), ('i', const(2)))], 'len: ' + w)
        outs = iterated(c, outs, t)
        c.demand('two notes seen twice', whole(c, outs, t), [((), exp)], w)
        c.demand('number of notes after iterating', views(c, outs, t, lambda s, t: c.op(s, 'len', t)), [((), ('i', const(2)))], 'len: ' + w)
    for i, (k1, k2) in enumerate(combos):
        c.guard('two notes', two, k1, k2, i % 2 == 1)

    def three(ks, looks):
        st, t = track(c, c.state())
        outs, exp, w = None, [], ''
        st, a, oa, _ = simple(c, st, 'a', n=1, pitch=7)
        st, b, ob, _ = simple(c, st, 'b', n=1, pitch=3)
        st, d, od, _ = simple(c, st, 'd', n=1, pitch=5)
        outs = start(st)
        for x, o, k, nm in ((a, oa, ks[0], 'p1'), (b, ob, ks[1], 'p2'), (d, od, ks[2], 'p3')):
            p = Poly.atom(sym(nm, 'int'))
            for q in outs:
                q.st = c.assume(q.st, Cond('le0', -p))
            outs = adds(c, outs, t, x, T2(p, 2 ** k))
            if looks:
                outs = iterated(c, outs, t)
            exp.append(item(p * const(2 ** k).inv(), o))
        c.demand('three notes', whole(c, outs, t), [((), ('track', SIG44, exp))], f'three adds, denominators {[2 ** k for k in ks]}' + (', iterated in between' if looks else ''))
        c.demand('number of notes', views(c, outs, t, lambda s, t: c.op(s, 'len', t)), [((), ('i', const(3)))], 'len after three adds')
    for ks, lk in (((2, 2, 2), False), ((0, 3, 1), True), ((4, 2, 5), False)):
        c.guard('three notes', three, ks, lk)

    def many(order, dens, looks):
        st, t = track(c, c.state())
        exp = []
        outs = start(st)
        for i, pos in enumerate(order):
            o0 = outs[0]
            s, nt, o, _ = simple(c, o0.st, f'n{i}', n=1, k=3)
            o0.st = s
            d = dens[i % len(dens)]
            outs = adds(c, outs, t, nt, T2(pos * d, d))
            if i in looks:
                outs = iterated(c, outs, t)
            exp.append(item(const(pos), o))
        c.demand('many notes', whole(c, outs, t), [((), ('track', SIG44, exp))], f'adds at {order}')
        c.demand('number of notes', views(c, outs, t, lambda s, t: c.op(s, 'len', t)), [((), ('i', const(len(order))))], f'len after adds at {order}')
    orders = [[5, 3, 8, 1, 9, 2, 7], [7, 6, 5, 4, 3, 2, 1, 0], [0, 1, 2, 3, 4, 5, 6, 7], [4, 0, 6, 2, 5, 1, 7, 3]]
    if c.tier != 'quick':
        import random
        rnd = random.Random(c.seed)
        for _ in range(40):
            orders.append(rnd.sample(range(30), rnd.randrange(4, 13)))
    for i, o in enumerate(orders):
        c.guard('many notes', many, o, [(1,), (4, 1, 16), (16, 2), (1, 2, 4, 8)][i % 4], [(), (2, 4), (0, 1, 5), (3,)][i % 4])

    def chord(kind, k):
        st, a, oa, _ = simple(c, c.state(), 'a', n=1, pitch=4)
        st, b, ob, _ = simple(c, st, 'b', n=3, pitch=0)
        st, d, od, _ = simple(c, st, 'd', n=2, pitch=9)
        st, t = track(c, st)
        if kind == 'tuple':
            g = T([a, b, d])
        else:
            st, g = lst(c, st, [a, b, d])
        st, n = c.int_(st, 'p', 0)
        outs = adds(c, start(st), t, g, T2(n, 2 ** k))
        p = n * const(2 ** k).inv()
        c.demand('group shares one position', whole(c, outs, t), [((), ('track', SIG44, [item(p, oa), item(p, ob), item(p, od)]))], f't.add({kind} of 3 notes, (p, {2 ** k}))')
    c.guard('group shares one position', chord, 'list', 2)
    c.guard('group shares one position', chord, 'tuple', 0)

    def chord_end(kind):
        st, a, oa, da = simple(c, c.state(), 'a', n=None, pitch=4)
        st, b, ob, _ = simple(c, st, 'b', n=3, pitch=0)
        st, d, od, _ = simple(c, st, 'd', n=2, pitch=9, k=3)
        st, t = track(c, st)
        st, g = lst(c, st, [b, d]) if kind == 'list' else (st, T([b, d]))
        st, n = c.int_(st, 'p', 0)
        outs = adds(c, start(st), t, a, T2(n, 8))
        outs = adds(c, outs, t, g)
        p = n * Fraction(1, 8)
        e = p + da
        c.demand('group placed at the end', whole(c, outs, t), [((), ('track', SIG44, [item(p, oa), item(e, ob), item(e, od)]))], 't.add(a, (p, 8)); t.add([b, d])')
    c.guard('group placed at the end', chord_end, 'list')
    c.guard('group placed at the end', chord_end, 'tuple')

    def dup():
        st, a, oa, _ = simple(c, c.state(), 'a', n=1)
        st, t = track(c, st)
        st, n = c.int_(st, 'p', 0)
        outs = adds(c, start(st), t, a, T2(n, 4))
        outs = adds(c, outs, t, a, T2(n * 2, 8))
        outs = adds(c, outs, t, a, T2(n, 4))
        p = n * Fraction(1, 4)
        c.demand('equal notes are all kept', whole(c, outs, t), [((), ('track', SIG44, [item(p, oa)] * 3))], 'the same note three times at one position')
    c.guard('equal notes are all kept', dup)

    def append(k1, k2):
        st, a, oa, da = simple(c, c.state(), 'a', k=k1, pitch=1)
        st, b, ob, db = simple(c, st, 'b', k=k2, pitch=1)
        st, d, od, dd = simple(c, st, 'd', k=1, n=1, pitch=1)
        st = c.assume(st, Cond('lt0', -da), Cond('lt0', -db))
        st, t = track(c, st)
        outs = adds(c, start(st), t, a)
        outs = adds(c, outs, t, b)
        outs = adds(c, outs, t, d)
        c.demand('default placement at the end', whole(c, outs, t), [((), ('track', SIG44, [item(ZERO, oa), item(da, ob), item(da + db, od)]))], 't.add(a); t.add(b); t.add(d)')
    for k1, k2 in ((2, 2), (0, 3), (4, 1)):
        c.guard('default placement at the end', append, k1, k2)

    def after(k1, k2):
        st, a, oa, da = simple(c, c.state(), 'a', k=2, pitch=3)
        st, b, ob, db = simple(c, st, 'b', k=3, pitch=2)
        st, d, od, dd = simple(c, st, 'd', k=1, n=1, pitch=1)
        st, n = c.int_(st, 'p1', 0)
        st, m = c.int_(st, 'p2', 0)
        st, t = track(c, st)
        pa, pb = n * const(2 ** k1).inv(), m * const(2 ** k2).inv()
        outs = adds(c, start(st), t, a, T2(n, 2 ** k1))
        outs = adds(c, outs, t, b, T2(m, 2 ** k2))
        outs = adds(c, outs, t, d)
        cases = [(cs, ('track', SIG44, [item(pa, oa), item(pb, ob), item(e, od)])) for cs, e in maxcases([pa + da, pb + db])]
        c.demand('default placement after the right-most end', whole(c, outs, t), cases, 't.add(a, p1); t.add(b, p2); t.add(d)')
    for k1, k2 in ((2, 2), (0, 3), (4, 1)):
        c.guard('default placement after the right-most end', after, k1, k2)

    def content():
        st, a, oa, da = simple(c, c.state(), 'a', k=2)
        st, b, ob, db = simple(c, st, 'b', k=3)
        st, n = c.int_(st, 'p', 0)
        st, sn = c.int_(st, 'sn', 0)
        st, s = c.sig(st, n, 16)
        pa = n * Fraction(1, 16)
        e = ('track', ('sig', sn, const(8)), [item(pa, oa), item(pa + da, ob)])
        for kind in ('list', 'tuple'):
            items = [T([a, s]), T([b, NONE])]
            st1, g = lst(c, st, items) if kind == 'list' else (st, T(items))
            c.demand('initial content', c.run(st1, c.Track, [T2(sn, 8), g]), [((), e)], 'Track((sn, 8), [(a, s), (b, None)])')
            c.demand('initial content', c.run(st1, c.Track, [], {'content': g, 'signature': T2(sn, 8)}), [((), e)], 'Track(signature=(sn, 8), content=[(a, s), (b, None)])')
        st1, g = lst(c, st, [T([a, T2(n, 16)]), T([b, T2(n, 16)])])
        c.demand('initial content', c.run(st1, c.Track, [], {'content': g}),
                 [((), ('track', SIG44, [item(pa, oa), item(pa, ob)]))], 'Track(content=[(a, (p, 16)), (b, (p, 16))])')
    c.guard('initial content', content)

    def signature():
        st, s, n, d = c.symsig(c.state(), 's')
        e = ('track', ('sig', n, d), [])
        c.demand('track signature', c.run(st, c.Track, [s]), [((), e)], 'Track(Signature(n, 2**k))')
        c.demand('track signature', c.run(st, c.Track, [T2(n, d)]), [((), e)], 'Track((n, 2**k))')
    c.guard('track signature', signature)
    for bad in (K(5), K(1.5)):
        def where_bad():
            st, a, oa, da = simple(c, c.state(), 'a')
            st, t = track(c, st)
            outs = adds(c, start(st), t, a, bad)
            c.demand('position of a wrong type', outs, [((), EXC_T)], f't.add(a, {bad!r})')
            c.demand('signature of a wrong type', c.run(st, c.Track, [bad]), [((), EXC_T)], f'Track({bad!r})')
        c.guard('position of a wrong type', where_bad)

    def neg_pos():
        st, a, oa, da = simple(c, c.state(), 'a')
        st, t = track(c, st)
        st, n = c.int_(st, 'p', None, -1)
        from check import Out
        for o in adds(c, start(st), t, a, T2(n, 4)):
            c.demand('negative position', [o], [((), EXC_V)], 't.add(a, (p, 4)), p < 0')
            if o.exc is not None:
                c.demand('rejected note is not kept', [Out(o.st, t)], [((), ('track', SIG44, []))], 't.add(a, (p, 4)), p < 0')
    c.guard('negative position', neg_pos)

    def tied(kind, m, dur):
        """notes at one position, of unknown pitch: in note order"""
        import itertools
        st, t = track(c, c.state())
        ps, refs, obs = [], [], []
        for i in range(m):
            st, p = c.int_(st, f'q{i}')
            st, tn = c.tone(st, p)
            st, du = c.sig(st, *dur[i])
            st, r = c.note(st, tn, du, 0.5)
            ps.append(p)
            refs.append(r)
            obs.append(('note', ('tone', p), ('sigv', const(Fraction(*dur[i]))), ('f', 0.5)))
        if kind == 'group':
            st, g = lst(c, st, refs)
            outs = adds(c, start(st), t, g, T2(3, 8))
        else:
            outs = start(st)
            for i, r in enumerate(refs):
                outs = adds(c, outs, t, r, T2(3 * 2 ** i, 8 * 2 ** i))
        cases = []
        for perm in itertools.permutations(range(m)):
            cs = []
            for i, j in zip(perm, perm[1:]):
                less = Fraction(*dur[i]) < Fraction(*dur[j]) or Fraction(*dur[i]) == Fraction(*dur[j]) and i < j
                cs.append(Cond('le0' if less else 'lt0', ps[i] - ps[j]))
            cases.append((tuple(cs), ('trk', SIG44, [(('sigv', const(Fraction(3, 8))), obs[i]) for i in perm])))
        c.demand('notes at one position are in note order', whole(c, outs, t), cases, f'{m} notes of unknown pitch at one position, {kind}')
    for kind in ('group', 'single'):
        c.guard('notes at one position are in note order', tied, kind, 2, ((1, 4), (1, 4)))
        c.guard('notes at one position are in note order', tied, kind, 2, ((1, 2), (1, 4)))
        c.guard('notes at one position are in note order', tied, kind, 3, ((1, 2), (1, 4), (3, 8)))

    def history(h, sg):
        st, t = track(c, c.state(), T2(*sg))
        seen = []
        outs = gen_hist.apply(c, st, t, h, None, seen)
        items, end = gen_hist.model(h)
        w = gen_hist.text(h)
        gen_hist.observed(c, seen, 'observations on the way', w)
        so = ('sig', const(sg[0]), const(sg[1]))
        c.demand('history of additions', whole(c, outs, t), [((), gen_hist.expected(so, items))], w)
        c.demand('number of notes', gen_hist.seen(c, outs, lambda s: c.op(s, 'len', t)), [((), ('i', const(len(items))))], 'len after ' + w)
    for h, sg in hists(c, 240, 4000):
        c.guard('history of additions', history, h, sg)
    with c.budget(10 ** 8):
        for h, sg in longer(c, 8):
            c.guard('history of additions', history, h, sg)

    def contents(h, n):
        """content at construction: the same as adding"""
        st = c.state()
        pairs = []
        for op in h:
            if op[0] != 'add' or op[1] != 'one':
                continue
            for p, d, v in op[2]:
                st, r = gen_hist.mknote(c, st, p, d, v)
                if op[3] is None:
                    w = NONE
                elif op[4] in ('sig', 'list'):
                    st, w = c.sig(st, *op[3])
                elif op[4] == 'iter':
                    st, w = gen_hist.once(c, st, [N(const(x)) for x in op[3]])
                else:
                    w = T2(*op[3])
                pairs.append(T([r, w]))
        h = [op for op in h if op[0] == 'add' and op[1] == 'one']
        form = ('list', 'list', 'tuple', 'once')[n % 4]
        if form == 'list':
            st, g = lst(c, st, pairs)
        elif form == 'tuple':
            g = T(pairs)
        else:
            st, g = gen_hist.once(c, st, pairs)
        items, end = gen_hist.model(h)
        c.demand('initial content', c.run(st, c.Track, [], {'content': g}), [((), gen_hist.expected(SIG44, items))], 'Track(content=[...]) for ' + gen_hist.text(h))
    for n, (h, sg) in enumerate(hists(c, 80, 800, 77)):
        c.guard('initial content', contents, h, n)


def hists(c, quick, thorough, salt=0):
    import random
    rnd = random.Random(c.seed * 1000 + salt)
    sizes = (2, 3, 3, 4, 4, 5, 6, 7, 8, 10)
    out = []
    for i in range(quick if c.tier == 'quick' else thorough):
        size = sizes[i % len(sizes)] if c.tier == 'quick' or i % 10 else rnd.randrange(10, 26)
        out.append((gen_hist.a_history(rnd, size, i % 3 != 2), rnd.choice(((4, 4), (3, 4), (6, 8), (2, 2)))))
    return out


def longer(c, salt):
    """long histories"""
    import random
    rnd = random.Random(f'{c.seed}.longer.{salt}')
    return [(gen_hist.a_history(rnd, n, i % 2 == 0), (3, 4)) for i, n in enumerate((40, 70, 130) if c.tier == 'quick' else (40, 60, 80, 110, 130, 200, 260, 400))]


@prop('C09')
def c09(c):
    ln = lambda outs, t: views(c, outs, t, lambda s, t: c.attr(s, t, 'length'))

    def empty():
        st, t = track(c, c.state())
        c.demand('length of an empty track', ln(start(st), t), [((), ('sigv', ZERO))], 'Track().length')
    c.guard('length of an empty track', empty)

    def one():
        st, a, oa = c.symnote(c.state(), 'a')
        st, t = track(c, st)
        st, s, n, d = c.symsig(st, 'pos')
        dn, dd = oa[2][1], oa[2][2]
        outs = adds(c, start(st), t, a, s)
        c.demand('length with one note', ln(outs, t), [((), ('sigv', v_of(n, d) + v_of(dn, dd)))], 't.add(a, s); t.length')
    c.guard('length with one note', one)

    def two(k1, k2, e1, e2, look):
        st, a, oa, da = simple(c, c.state(), 'a', k=e1)
        st, b, ob, db = simple(c, st, 'b', k=e2)
        st, n = c.int_(st, 'p1', 0)
        st, m = c.int_(st, 'p2', 0)
        st, t = track(c, st)
        pa, pb = n * const(2 ** k1).inv(), m * const(2 ** k2).inv()
        outs = adds(c, start(st), t, a, T2(n, 2 ** k1))
        c.demand('length with one note', ln(outs, t), [((), ('sigv', pa + da))], 't.add(a, p1); t.length')
        if look:
            outs = iterated(c, outs, t)
        outs = adds(c, outs, t, b, T2(m, 2 ** k2))
        cases = [(cs, ('sigv', e)) for cs, e in maxcases([pa + da, pb + db])]
        c.demand('length with two notes', ln(outs, t), cases, f't.add(a, (p1, {2 ** k1})); t.add(b, (p2, {2 ** k2})); t.length')
        outs = iterated(c, outs, t)
        c.demand('length after iterating', ln(outs, t), cases, f't.add(a, (p1, {2 ** k1})); t.add(b, (p2, {2 ** k2})); list(t); t.length')
    for i, ks in enumerate(((2, 2, 2, 2), (0, 3, 2, 2), (3, 0, 2, 2), (2, 2, 0, 5), (2, 2, 5, 0), (1, 4, 3, 0), (6, 1, 0, 2))):
        c.guard('length with two notes', two, *ks, i % 2 == 0)

    def three():
        st, t = track(c, c.state())
        ends, outs = [], start(st)
        for nm, k, e in (('a', 2, 3), ('b', 2, 3), ('d', 2, 3)):
            p = Poly.atom(sym('p' + nm, 'int'))
            for q in outs:
                q.st = c.assume(q.st, Cond('le0', -p))
            n = Poly.atom(sym('n' + nm, 'int'))
            res = []
            for q in outs:
                s = c.assume(q.st, Cond('le0', -n))
                s, nt, o, d = simple(c, s, nm, k=e, n=n, pitch=5)
                q.st = s
                res += adds(c, [q], t, nt, T2(p, 2 ** k))
            outs = res
            ends.append(p * const(2 ** k).inv() + d)
        c.demand('length with three notes', ln(outs, t), [(cs, ('sigv', e)) for cs, e in maxcases(ends)], 'three adds; t.length')
    c.guard('length with three notes', three)

    def group():
        st, a, oa, da = simple(c, c.state(), 'a', pitch=1)
        st, b, ob, db = simple(c, st, 'b', k=4, pitch=2)
        st, t = track(c, st)
        st, g = lst(c, st, [a, b])
        st, n = c.int_(st, 'p', 0)
        p = n * Fraction(1, 8)
        outs = adds(c, start(st), t, g, T2(n, 8))
        c.demand('length with a group', ln(outs, t), [(cs, ('sigv', e)) for cs, e in maxcases([p + da, p + db])], 't.add([a, b], (p, 8)); t.length')
        outs = adds(c, outs, t, g)
        c.demand('length with two groups', ln(outs, t), [(cs, ('sigv', e + e - p)) for cs, e in maxcases([p + da, p + db])], 't.add([a, b], (p, 8)); t.add([a, b]); t.length')
    c.guard('length with a group', group)

    def content():
        st, a, oa, da = simple(c, c.state(), 'a')
        st, b, ob, db = simple(c, st, 'b', k=4)
        st, n = c.int_(st, 'p', 0)
        st, m = c.int_(st, 'q', 0)
        st, g = lst(c, st, [T([a, T2(n, 8)]), T([b, T2(m, 8)])])
        outs = c.run(st, c.Track, [], {'content': g})
        res = []
        for o in outs:
            res += [o] if o.exc is not None else c.attr(o.st, o.v, 'length')
        c.demand('length of initial content', res, [(cs, ('sigv', e)) for cs, e in maxcases([n * Fraction(1, 8) + da, m * Fraction(1, 8) + db])], 'Track(content=[(a, p), (b, q)]).length')
    c.guard('length of initial content', content)

    def history(h, sg):
        st, t = track(c, c.state(), T2(*sg))
        outs = start(st)
        w = gen_hist.text(h)
        for i, op in enumerate(h):
            res = []
            for o in outs:
                res += [o] if o.exc is not None else gen_hist.apply(c, o.st, t, [op])
            outs = res
            if i == len(h) - 1 or op[0] == 'add' and i % 3 == 1:
                end = gen_hist.model(h[:i + 1])[1]
                c.demand('length after a history', ln(outs, t), [((), ('sigv', const(1) * end))], 't.length after ' + gen_hist.text(h[:i + 1]))
        c.demand('length after a history', ln(iterated(c, outs, t), t), [((), ('sigv', const(1) * end))], 't.length after ' + w + '; list(t)')
    for h, sg in hists(c, 240, 4000, 5):
        c.guard('length after a history', history, h, sg)
    with c.budget(10 ** 8):
        for h, sg in longer(c, 9):
            c.guard('length after a history', history, h, sg)


def andc(*cs):
    """cases of a conjunction of atomic conditions: [(conds, holds)]"""
    out = []
    for i, x in enumerate(cs):
        out.append((tuple(cs[:i]) + (x.neg(),), False))
    return out + [(tuple(cs), True)]


@prop('C10')
def c10(c):
    def both(name, st, a, b, cases, what):
        """cases: [(conds, equal?)]"""
        for op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                c.demand(name, c.op(st, op, x, y), [(cs, ('c', e if op == '==' else not e)) for cs, e in cases], what + f' {op}')

    def empties():
        st, s1, n1, d1 = c.symsig(c.state(), 's1')
        st, s2, n2, d2 = c.symsig(st, 's2')
        st, a = track(c, st, s1)
        st, b = track(c, st, s2)
        both('tracks differing in signature', st, a, b, andc(Cond('eq0', v_of(n1, d1) - v_of(n2, d2))), 'Track(s1), Track(s2)')
        both('track and itself', st, a, a, [((), True)], 't, t')
    c.guard('tracks differing in signature', empties)

    def counts(na, nb, look, dur=1, step=1, pitch=4):
        st = c.state()
        st, t = track(c, st)
        st, u = track(c, st)
        st, nt, o, d = simple(c, st, 'a', n=dur, pitch=pitch)
        outs = start(st)
        for i in range(na):
            outs = adds(c, outs, t, nt, T2(i * step, 4))
        if look:
            outs = iterated(c, outs, t)
        for i in range(nb):
            outs = adds(c, outs, u, nt, T2(i * step, 4))
        for o in outs:
            if o.exc is not None:
                c.demand('tracks of different sizes', [o], [((), ('any',))])
            else:
                both('tracks of different sizes', o.st, t, u, [((), na == nb)], f'{na} and {nb} notes, one a prefix of the other:')
    for na, nb in ((0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (3, 3), (2, 2)):
        c.guard('tracks of different sizes', counts, na, nb, (na + nb) % 2 == 0)
        c.guard('tracks of different sizes', counts, na, nb, (na + nb) % 2 == 1, 0, 0, 0)
        c.guard('tracks of different sizes', counts, na, nb, na % 2 == 1, 1, 0)
        c.guard('tracks of different sizes', counts, na, nb, nb % 2 == 1, 0, 1)

    def multi():
        sets = ('aab', 'abb', 'ab', 'aabb', 'aaab', 'abab', 'ba', 'baa', 'a', 'bb')
        for x in sets:
            for y in sets:
                st = c.state()
                st, t = track(c, st)
                st, u = track(c, st)
                nts = {}
                for nm, p in (('a', 3), ('b', 8)):
                    st, nts[nm], o, d = simple(c, st, nm, n=1, pitch=p)
                outs = start(st)
                for ch in x:
                    outs = adds(c, outs, t, nts[ch], T2(1, 4))
                for ch in y:
                    outs = adds(c, outs, u, nts[ch], T2(2, 8))
                for o in outs:
                    if o.exc is not None:
                        c.demand('repeated notes', [o], [((), ('any',))])
                    else:
                        both('repeated notes', o.st, t, u, [((), sorted(x) == sorted(y))], f'{x} and {y} at one position:')
    c.guard('repeated notes', multi)

    def ones(what, k1=2, k2=2, e1=3, e2=3):
        st = c.state()
        st, x, ox, dx = simple(c, st, 'a', k=e1, n=None if 'dur' in what else 2 ** e1, pitch=None if 'tone' in what else 7)
        st, y, oy, dy = simple(c, st, 'b', k=e2, n=None if 'dur' in what else 2 ** e2, pitch=None if 'tone' in what else 7)
        if 'vel' not in what:
            st, tn = c.tone(st, 7)
            st, du = c.sig(st, 3, 8)
            st, x = c.note(st, tn, du, 0.5)
            st, y = c.note(st, tn, du, 0.5)
        st, t = track(c, st)
        st, u = track(c, st)
        if 'pos' in what:
            st, n = c.int_(st, 'p1', 0)
            st, m = c.int_(st, 'p2', 0)
        else:
            n, m = const(2 ** k1), const(2 ** k2)
        outs = adds(c, start(st), t, x, T2(n, 2 ** k1))
        outs = adds(c, outs, u, y, T2(m, 2 ** k2))
        conds = []
        if 'pos' in what:
            conds.append(Cond('eq0', n * const(2 ** k1).inv() - m * const(2 ** k2).inv()))
        if 'tone' in what:
            conds.append(Cond('eq0', ox[1][1] - oy[1][1]))
        if 'dur' in what:
            conds.append(Cond('eq0', dx - dy))
        if 'vel' in what:
            conds.append(Cond('feq', ox[3][1], oy[3][1]))
        for o in outs:
            if o.exc is not None:
                c.demand('tracks of one note', [o], [((), ('any',))])
            else:
                both('tracks of one note', o.st, t, u, andc(*conds), f'one note each, {what} unknown:')
    for what in ('pos', 'vel', 'vel tone', 'vel dur', 'pos vel tone dur'):
        c.guard('tracks of one note', ones, what)
    for k1, k2 in ((0, 3), (5, 1)):
        c.guard('tracks of one note', ones, 'pos', k1, k2)
        c.guard('tracks of one note', ones, 'vel dur', 2, 2, k1, k2)

    def order(perm, look):
        st, t = track(c, c.state())
        st, u = track(c, st)
        nts = []
        for i in range(3):
            st, x, ox, dx = simple(c, st, f'n{i}', n=1)
            nts.append(x)
        outs = start(st)
        for i in range(3):
            outs = adds(c, outs, t, nts[i], T2(i, 4))
        for i in perm:
            outs = adds(c, outs, u, nts[i], T2(i * 4, 16))
            if look:
                outs = iterated(c, outs, u)
        for o in outs:
            if o.exc is not None:
                c.demand('same notes added in another order', [o], [((), ('any',))])
            else:
                both('same notes added in another order', o.st, t, u, [((), True)], f'the same notes in the order {perm}:')
    for p in ((0, 1, 2), (2, 1, 0), (1, 2, 0), (2, 0, 1)):
        c.guard('same notes added in another order', order, p, p[0] == 1)

    def last(i, what):
        """two tracks of three notes that differ in one note at most"""
        st, t = track(c, c.state())
        st, u = track(c, st)
        outs = start(st)
        cond = None
        for j in range(3):
            o0 = outs[0]
            s, x, ox, dx = simple(c, o0.st, f'a{j}', n=1, pitch=5)
            y, pos = x, const(j * 2)
            if j == i and what == 'tone':
                s, p1 = c.int_(s, 'p1')
                s, p2 = c.int_(s, 'p2')
                s, t1 = c.tone(s, p1)
                s, t2 = c.tone(s, p2)
                s, du = c.sig(s, 1, 4)
                s, x = c.note(s, t1, du, 0.5)
                s, y = c.note(s, t2, du, 0.5)
                cond = Cond('eq0', p1 - p2)
            o0.st = s
            if j == i and what == 'pos':
                o0.st, e = c.int_(o0.st, 'e', 0, 1)
                pos = pos + e
                cond = Cond('eq0', e)
            outs = adds(c, outs, t, x, T2(j * 2, 8))
            outs = adds(c, outs, u, y, T2(pos, 8))
        for o in outs:
            if o.exc is not None:
                c.demand('tracks differing in one note', [o], [((), ('any',))])
            else:
                both('tracks differing in one note', o.st, t, u, andc(cond), f'note {i} may differ in {what}:')
    for i in range(3):
        for w in ('tone', 'pos'):
            c.guard('tracks differing in one note', last, i, w)

    def sig_and_notes():
        st, s1, n1, d1 = c.symsig(c.state(), 's1', 2)
        st, s2, n2, d2 = c.symsig(st, 's2', 3)
        st, x, ox, dx = simple(c, st, 'a', n=1)
        st, a = track(c, st, s1)
        st, b = track(c, st, s2)
        outs = adds(c, start(st), a, x, T2(1, 4))
        outs = adds(c, outs, b, x, T2(1, 4))
        for o in outs:
            if o.exc is None:
                both('tracks differing in signature', o.st, a, b, andc(Cond('eq0', v_of(n1, d1) - v_of(n2, d2))), 'the same note, signatures n1/4 and n2/8:')
    c.guard('tracks differing in signature', sig_and_notes)

    def history(h, sg, i):
        import random
        rnd = random.Random(i)
        st, t = track(c, c.state(), T2(*sg))
        items, end = gen_hist.model(h)
        finer = i // 11 % 3 != 1
        if finer:
            outs = gen_hist.apply(c, st, t, h)
        else:
            outs, h = gen_hist.build(c, st, t, items, rnd, False)
        other, equal, sg2 = list(items), True, (sg[0] * 2, sg[1] * 2)
        how = ('same', 'same', 'pos', 'tone', 'dur', 'vel', 'less', 'more', 'dup', 'sig', 'swap')[i % 11]
        if how != 'same' and how != 'sig' and items:
            j = rnd.choice((0, len(items) - 1, rnd.randrange(len(items))))
            p, q, d, v = items[j]
            if how == 'pos':
                other[j] = (p + Fraction(1, rnd.choice((4, 64, 4096))), q, d, v)
            elif how == 'tone':
                other[j] = (p, q + rnd.choice((1, -1, 12)), d, v)
            elif how == 'dur':
                other[j] = (p, q, d + Fraction(1, rnd.choice((4, 64, 4096))), v)
            elif how == 'vel':
                other[j] = (p, q, d, rnd.choice([x for x in (0.0, 0.25, 0.5, 1.0) if x != v]))
            elif how == 'less':
                del other[j]
            elif how == 'more':
                other.append((end, 3, Fraction(1, 4), 0.5))
            elif how == 'dup':
                other[j] = items[rnd.randrange(len(items))]
            elif how == 'swap':
                k = rnd.randrange(len(items))
                (p1, q1, d1, v1), (p2, q2, d2, v2) = items[j], items[k]
                other[j], other[k] = (p1, q2, d1, v1), (p2, q1, d2, v2)
            equal = sorted(other) == sorted(items)
        elif how == 'sig':
            sg2, equal = (sg[0] * 2 + 1, sg[1] * 2), False
        res = []
        for o in outs:
            if o.exc is not None:
                res.append(o)
                continue
            s, u = track(c, o.st, T2(*sg2))
            o2, h2 = gen_hist.build(c, s, u, other, rnd, finer)
            for x in o2:
                if x.exc is not None:
                    res.append(x)
                    continue
                both('tracks with a history', x.st, t, u, [((), equal)], f't: {gen_hist.text(h)}; u: {gen_hist.text(h2)}')
        if res:
            c.demand('tracks with a history', res, [((), ('any',))], gen_hist.text(h))
    for i, (h, sg) in enumerate(hists(c, 220, 3300, 9)):
        c.guard('tracks with a history', history, h, sg, i)
    with c.budget(10 ** 8):
        for i, (h, sg) in enumerate(longer(c, 10) * 3):
            c.guard('tracks with a history', history, h, sg, i + 1 + i // 3)
