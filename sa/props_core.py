"""Signature, Tone, Note."""
from props import prop, PROPS
from oblig import *
from facts import cmp_cond
from poly import sym
import gen_ops
from fractions import Fraction
import operator

EXC_V = ('exc', ('ValueError',))


def v_of(n, d):
    return n * d.inv()


def a_sig(rnd, i):
    k = rnd.choice((1070, 1075, 1100, 2000, 1023)) if i % 11 == 5 else rnd.choice((0, 1, 2, 3, 4, 5, 6, 10) if i % 2 else (0, 2, 16, 17, 24, 31, 32, 33, 52, 53, 54, 60, 63, 64, 65, 100))
    d = 2 ** k
    n = rnd.choice((0, 1, 2, 3, 5) if d > 2 ** 1000 and rnd.random() < 0.7 else (0, 1, 2, 3, d, d - 1, d + 1, rnd.randrange(0, 4 * d), rnd.randrange(0, 200), 2 * d, 3 * d, d // 2, rnd.randrange(0, 2 ** 70)))
    return n, d


@prop('C01')
def c01(c):
    def binary(op, name):
        st, a, n1, d1 = c.symsig(c.state(), 's1')
        st, b, n2, d2 = c.symsig(st, 's2')
        v1, v2 = v_of(n1, d1), v_of(n2, d2)
        exp = v1 + v2 if op[0] == '+' else v1 * v2
        c.demand(name, c.op(st, op, a, b), [((), ('sigv', exp))], f's1 {op} s2')
    c.guard('signature addition', binary, '+', 'signature addition')
    c.guard('signature multiplication', binary, '*', 'signature multiplication')
    c.guard('signature addition', binary, '+=', 'signature addition')
    c.guard('signature multiplication', binary, '*=', 'signature multiplication')

    def absolute():
        st, a, n, d = c.symsig(c.state(), 's')
        c.demand('signature abs', c.op(st, 'abs', a), [((), ('sigv', v_of(n, d)))], 'abs(s)')
    c.guard('signature abs', absolute)

    def to():
        st, a, n, d = c.symsig(c.state(), 's')
        st, e = c.int_(st, 'to.k', 0, 64)
        t = Poly.pow2(e)
        k = Poly.atom(sym('s.k'))
        c.demand('rescaling', c.method(st, a, 'to', [N(t)]),
                 [((Cond('le0', k - e),), ('sig', n * t * d.inv(), t)),
                  ((Cond('lt0', e - k),), EXC_V)], 's.to(2**k)')
    c.guard('rescaling', to)

    def to_low():
        st, a, n, d = c.symsig(c.state(), 's')
        st, x = c.int_(st, 'x', None, 0)
        c.demand('rescaling to a non-positive denominator', c.method(st, a, 'to', [N(x)]), [((), EXC_V)], 's.to(x), x <= 0')
    c.guard('rescaling to a non-positive denominator', to_low)
    for x in (3, 5, 6, 7, 9, 10, 12, 15, 24, 96, 100, 1000, 2 ** 20 + 1, 2 ** 33 - 1, 3 * 2 ** 30):
        def to_bad():
            st, a, n, d = c.symsig(c.state(), 's')
            c.demand('rescaling to a denominator that is no power of two', c.method(st, a, 'to', [N(x)]), [((), EXC_V)], f's.to({x})')
        c.guard('rescaling to a denominator that is no power of two', to_bad)
    top = 5 if c.tier == 'quick' else 9
    for k in range(top + 1):
        for a in range(top + 2):
            def norm():
                st, j = c.int_(c.state(), 'j', 0)
                n = (j * 2 + 1) * (2 ** a)
                st, s = c.sig(st, n, 2 ** k)
                m = min(a, k)
                c.demand('lowest terms', c.method(st, s, 'normalized', []),
                         [((), ('sig', (j * 2 + 1) * 2 ** (a - m), Poly.const(2 ** (k - m))))], f'Signature(2**{a}*(2j+1), 2**{k}).normalized()')
            c.guard('lowest terms', norm)

        def norm0():
            st, s = c.sig(c.state(), 0, 2 ** k)
            c.demand('lowest terms of zero', c.method(st, s, 'normalized', []), [((), ('sig', ZERO, ONE))], f'Signature(0, 2**{k}).normalized()')
        c.guard('lowest terms of zero', norm0)
    import random
    rnd = random.Random(c.seed + 101)
    for a, k in ((8, 8), (15, 16), (16, 16), (17, 17), (16, 18), (20, 20), (12, 33), (33, 12), (32, 32), (64, 64), (40, 64), (63, 1), (100, 100)):
        for odd in (1, 3, 2 ** 31 - 1) if c.tier == 'quick' else (1, 3, 7, 45, 2 ** 31 - 1, 2 ** 53 + 1, 2 ** 64 + 1):
            def norm_big():
                st, s = c.sig(c.state(), odd * 2 ** a, 2 ** k)
                m = min(a, k)
                c.demand('lowest terms', c.method(st, s, 'normalized', []),
                         [((), ('sig', Poly.const(odd * 2 ** (a - m)), Poly.const(2 ** (k - m))))], f'Signature({odd}*2**{a}, 2**{k}).normalized()')
            c.guard('lowest terms', norm_big)
    for i in range(120 if c.tier == 'quick' else 2000):
        def points():
            (n1, d1), (n2, d2) = a_sig(rnd, i), a_sig(rnd, i)
            c.I.maxloop = 2500
            st, a = c.sig(c.state(), n1, d1)
            st, b = c.sig(st, n2, d2)
            for op in '+*':
                x, y = Fraction(n1, d1), Fraction(n2, d2)
                v = x + y if op == '+' else x * y
                c.demand('arithmetic of given signatures', c.op(st, op, a, b), [((), ('sigv', ONE * v))], f'Signature({n1}, {d1}) {op} Signature({n2}, {d2})')
            g = max(d for d in (2 ** j for j in range(2100)) if n1 % d == 0 and d1 % d == 0)
            c.demand('lowest terms', c.method(st, a, 'normalized', []), [((), ('sig', Poly.const(n1 // g), Poly.const(d1 // g)))], f'Signature({n1}, {d1}).normalized()')
            c.demand('signature abs', c.op(st, 'abs', a), [((), ('sigv', ONE * Fraction(n1, d1)))], f'abs(Signature({n1}, {d1}))')
            t = 2 ** rnd.randrange(0, d1.bit_length() + 6)
            c.demand('rescaling', c.method(st, a, 'to', [N(t)]),
                     [((), ('sig', Poly.const(n1 * t // d1), Poly.const(t)) if t >= d1 else EXC_V)], f'Signature({n1}, {d1}).to({t})')
        c.guard('arithmetic of given signatures', points)
    gen_ops.sequences(c, 'arithmetic of given signatures', 'c01' + '.ops', (('add', 'mul', 'norm', 'to', 'sig'), ('to',), ('norm', 'to'), ('add', 'mul'), ('norm', 'cmp', 'add')), 600, 6000)


@prop('C02')
def c02(c):
    for op in ('<', '<=', '>', '>=', '==', '!='):
        def cmp_():
            st, a, n1, d1 = c.symsig(c.state(), 's1')
            st, b, n2, d2 = c.symsig(st, 's2')
            exp = ('b', cmp_cond(op, v_of(n1, d1), v_of(n2, d2)))
            c.demand(f'signature {op}', c.op(st, op, a, b), [((), exp)], f's1 {op} s2')
        c.guard(f'signature {op}', cmp_)

        def refl():
            st, a, n1, d1 = c.symsig(c.state(), 's1')
            c.demand(f'signature {op} itself', c.op(st, op, a, a), [((), ('c', op in ('<=', '>=', '==')))], f's {op} s')
        c.guard(f'signature {op} itself', refl)
    import random
    rnd = random.Random(c.seed + 102)
    for i in range(160 if c.tier == 'quick' else 2500):
        def points():
            n1, d1 = a_sig(rnd, i)
            if i % 3 == 0:
                n2, d2 = a_sig(rnd, i)
            else:
                # the same value, or the nearest ones, over another denominator
                j = rnd.randrange(0, 40)
                n2, d2 = max(0, n1 * 2 ** j + rnd.choice((0, 0, 1, -1, 1, -1, 2 ** 61 - 1, 2 ** 32, 2 ** 53, 2 ** 64))), d1 * 2 ** j
            st, a = c.sig(c.state(), n1, d1)
            st, b = c.sig(st, n2, d2)
            for op, f in FNS.items():
                c.demand(f'signature {op}', c.op(st, op, a, b), [((), ('c', f(Fraction(n1, d1), Fraction(n2, d2))))], f'Signature({n1}, {d1}) {op} Signature({n2}, {d2})')
                c.demand(f'signature {op}', c.op(st, op, b, a), [((), ('c', f(Fraction(n2, d2), Fraction(n1, d1))))], f'Signature({n2}, {d2}) {op} Signature({n1}, {d1})')
        c.guard('comparisons of given signatures', points)
    gen_ops.sequences(c, 'comparisons of given signatures', 'c02' + '.ops', (('cmp', 'norm'), ('cmp',), ('cmp', 'to', 'add')), 600, 6000)


NOTPOW2 = (3, 5, 6, 7, 9, 10, 12, 15, 24, 96, 100, 1000, 2 ** 20 + 1, 2 ** 33 - 1, 3 * 2 ** 30)


@prop('C03')
def c03(c):
    def sig_ok():
        st, n = c.int_(c.state(), 'n')
        st, k = c.int_(st, 'k', 0, 64)
        d = Poly.pow2(k)
        c.demand('signature construction', c.run(st, c.Signature, [N(n), N(d)]),
                 [((Cond('le0', -n),), ('sig', n, d)), ((Cond('lt0', n),), EXC_V)], 'Signature(n, 2**k)')
    c.guard('signature construction', sig_ok)

    def sig_low():
        st, n = c.int_(c.state(), 'n')
        st, d = c.int_(st, 'd', None, 0)
        c.demand('signature with a non-positive denominator', c.run(st, c.Signature, [N(n), N(d)]), [((), EXC_V)], 'Signature(n, d), d <= 0')
    c.guard('signature with a non-positive denominator', sig_low)
    for x in NOTPOW2:
        def sig_bad():
            st, n = c.int_(c.state(), 'n')
            c.demand('signature with a denominator that is no power of two', c.run(st, c.Signature, [N(n), N(x)]), [((), EXC_V)], f'Signature(n, {x})')
        c.guard('signature with a denominator that is no power of two', sig_bad)

    def tone_ok():
        st, p = c.int_(c.state(), 'p')
        c.demand('tone construction', c.run(st, c.Tone, [N(p)]), [((), ('tone', p))], 'Tone(p)')
    c.guard('tone construction', tone_ok)
    for x in (K('C4'), K(1.5), K(60.0), NONE, T([N(1)])):
        c.guard('tone from a non-integer', lambda: c.demand('tone from a non-integer', c.run(c.state(), c.Tone, [x]), [((), EXC_V)], f'Tone({x!r})'))

    D14 = ('sig', ONE, Poly.const(4))

    def note_defaults():
        st, p = c.int_(c.state(), 'p')
        c.demand('note defaults', c.run(st, c.Note, [N(p)]), [((), ('note', ('tone', p), D14, ('f', 0.75)))], 'Note(p)')
    c.guard('note defaults', note_defaults)

    def note_tone():
        st, p = c.int_(c.state(), 'p')
        st, t = c.tone(st, p)
        st, s, n, d = c.symsig(st, 's')
        st, v = c.flt(st, 'v', 0.0, 1.0)
        c.demand('note construction', c.run(st, c.Note, [t, s, F(v)]), [((), ('note', ('tone', p), ('sig', n, d), ('f', v)))], 'Note(Tone(p), s, v)')
        c.demand('note construction', c.run(st, c.Note, [], {'tone': N(p), 'duration': T([N(n), N(d)]), 'velocity': F(v)}),
                 [((), ('note', ('tone', p), ('sig', n, d), ('f', v)))], 'Note(p, (n, d), v)')
    c.guard('note construction', note_tone)

    def note_list():
        st, p = c.int_(c.state(), 'p')
        st, n = c.int_(st, 'n')
        st = st.copy()
        l = c.I.new(st, Lst('list', [El(N(n)), El(N(8))]))
        c.demand('note duration pair', c.run(st, c.Note, [N(p), l]),
                 [((Cond('le0', -n),), ('note', ('tone', p), ('sig', n, Poly.const(8)), ('f', 0.75))), ((Cond('lt0', n),), EXC_V)], 'Note(p, [n, 8])')
        c.demand('note duration pair', c.run(st, c.Note, [N(p), T([N(n), N(6)])]), [((), EXC_V)], 'Note(p, (n, 6))')
    c.guard('note duration pair', note_list)
    for x, val in (('C4', 48), ('Db3', 37), ('B-1', -1), ('F##', 7)):
        c.guard('note from notation', lambda: c.demand('note from notation', c.run(c.state(), c.Note, [K(x)]),
                                                       [((), ('note', ('tone', Poly.const(val)), D14, ('f', 0.75)))], f'Note({x!r})'))
    c.guard('note from bad notation', lambda: c.demand('note from bad notation', c.run(c.state(), c.Note, [K('H4')]), [((), EXC_V)], "Note('H4')"))
    for x in (NONE, K(1.5), T([N(1)]), K(b'C4')):
        c.guard('note from a wrong tone', lambda: c.demand('note from a wrong tone', c.run(c.state(), c.Note, [x]), [((), ('exc', ('TypeError',)))], f'Note({x!r})'))
    for x in (NONE, K(0.25), N(1)):
        c.guard('note with a wrong duration', lambda: c.demand('note with a wrong duration', c.run(c.state(), c.Note, [N(60), x]), [((), ('exc', ('TypeError',)))], f'Note(60, {x!r})'))

    def velocity(how):
        st = c.state()
        a = sym('v', 'float')
        vel = F(a)
        good = ('note', ('tone', Poly.const(60)), ('sig', ONE, ONE), ('f', a))
        st, s = c.sig(st, 1, 1)
        if how == 'new':
            outs = c.run(st, c.Note, [N(60), s, vel])
        else:
            st, t = c.tone(st, 60)
            st, nn = c.note(st, t, s, 0.5)
            outs = c.method(st, nn, 'with_velocity', [vel])
        c.demand('velocity range', outs,
                 [((Cond('fle', 0.0, a), Cond('fle', a, 1.0)), good), ((Cond('flt', a, 0.0),), EXC_V), ((Cond('flt', 1.0, a),), EXC_V)], f'velocity v ({how})')
    c.guard('velocity range', velocity, 'new')
    c.guard('velocity range', velocity, 'with_velocity')

    def nan():
        c.demand('NaN velocity', c.run(c.state(), c.Note, [N(60), T([N(1), N(4)]), K(float('nan'))]), [((), EXC_V)], 'Note(60, (1, 4), nan)')
    c.guard('NaN velocity', nan)
    for x, ok in ((0.0, 1), (1.0, 1), (-0.0, 1), (1.0000001, 0), (-1e-9, 0), (float('inf'), 0), (float('-inf'), 0)):
        exp = ('note', ('tone', Poly.const(60)), D14, ('f', x)) if ok else EXC_V
        c.guard('velocity bounds', lambda: c.demand('velocity bounds', c.run(c.state(), c.Note, [N(60), T([N(1), N(4)]), K(x)]), [((), exp)], f'velocity {x}'))

    Writer, Reader = c.mod('melodia.io.midi', 'MIDIWriter'), c.mod('melodia.io.midi', 'MIDIReader')

    def wr(kw, conds_ok, conds_bad, what):
        st = c.state()
        c.demand('writer parameters', c.run(st, Writer, [], kw), [(conds_ok, ('any',))] + [(b, EXC_V) for b in conds_bad], what)
    ppq, ch = Poly.atom(sym('ppq')), Poly.atom(sym('channel'))
    c.guard('writer parameters', wr, {'pulses_per_quarter': N(ppq)}, (Cond('le0', ONE - ppq), Cond('le0', ppq - 32767)),
            [(Cond('lt0', ppq - 1),), (Cond('lt0', Poly.const(32767) - ppq),)], 'MIDIWriter(pulses_per_quarter=p)')
    c.guard('writer parameters', wr, {'channel': N(ch)}, (Cond('le0', -ch), Cond('le0', ch - 15)),
            [(Cond('lt0', ch),), (Cond('lt0', Poly.const(15) - ch),)], 'MIDIWriter(channel=c)')
    for cl, nm in ((Writer, 'MIDIWriter'), (Reader, 'MIDIReader')):
        def mc_ok():
            st, p = c.int_(c.state(), 'p')
            c.demand('middle c forms', c.run(st, cl, [], {'middle_c': N(p)}), [((), ('any',))], f'{nm}(middle_c=p)')
            st, t = c.tone(st, p)
            c.demand('middle c forms', c.run(st, cl, [], {'middle_c': t}), [((), ('any',))], f'{nm}(middle_c=Tone(p))')
            c.demand('middle c forms', c.run(st, cl, [], {'middle_c': K('C4')}), [((), ('any',))], f"{nm}(middle_c='C4')")
            c.demand('middle c forms', c.run(st, cl, [], {'middle_c': K('H4')}), [((), EXC_V)], f"{nm}(middle_c='H4')")
            for x in (NONE, K(1.5)):
                c.demand('middle c forms', c.run(st, cl, [], {'middle_c': x}), [((), ('exc', ('TypeError',)))], f"{nm}(middle_c={x!r})")
        c.guard('middle c forms', mc_ok)

    def trk():
        st, n = c.int_(c.state(), 'n')
        e44 = ('trk', ('sig', Poly.const(4), Poly.const(4)), [])
        c.demand('track signature forms', c.run(st, c.Track, []), [((), e44)], 'Track()')
        c.demand('track signature forms', c.run(st, c.Track, [T([N(n), N(8)])]),
                 [((Cond('le0', -n),), ('trk', ('sig', n, Poly.const(8)), [])), ((Cond('lt0', n),), EXC_V)], 'Track((n, 8))')
        c.demand('track signature forms', c.run(st, c.Track, [T([N(n), N(7)])]), [((), EXC_V)], 'Track((n, 7))')
        for x in (NONE, N(4), K(1.5)):
            c.demand('track signature forms', c.run(st, c.Track, [x]), [((), ('exc', ('TypeError',)))], f'Track({x!r})')
        st, t = c.one(st, c.Track, [])
        st, nt = c.one(st, c.Note, [N(60)])
        for x in (N(4), K(1.5)):
            c.demand('track position forms', c.method(st, t, 'add', [nt, x]), [((), ('exc', ('TypeError',)))], f'add(note, {x!r})')
        for x in (T([N(-1), N(4)]), T([N(1), N(5)]), T([N(1), N(0)])):
            c.demand('track position forms', c.method(st, t, 'add', [nt, x]), [((), EXC_V)], f'add(note, {x!r})')
    c.guard('track forms', trk)

    def things(st):
        """one value of every other kind"""
        st, tn = c.tone(st, 60)
        st, sg = c.sig(st, 3, 4)
        st, nt = c.note(st, tn, sg, 0.5)
        st, tr = c.one(st, c.Track, [])
        st = st.copy()
        l = c.I.new(st, Lst('list', [El(N(3)), El(N(4))]))
        return st, {'tone': tn, 'signature': sg, 'note': nt, 'track': tr, 'list': l, 'pair': T([N(3), N(4)]), 'none': NONE, 'float': K(1.5), 'whole float': K(60.0),
                    'bytes': K(b'C4'), 'empty tuple': T([]), 'class': c.Tone}
    TE = ('exc', ('TypeError',))
    for nm in ('tone', 'signature', 'note', 'track', 'list', 'pair', 'none', 'float', 'whole float', 'bytes', 'empty tuple', 'class'):
        def wrong():
            st, w = things(c.state())
            x = w[nm]
            if nm != 'tone':
                c.demand('note from a wrong tone', c.run(st, c.Note, [x]), [((), TE)], f'Note(<{nm}>)')
                c.demand('note from a wrong tone', c.run(st, c.Note, [], {'tone': x, 'duration': T([N(1), N(4)])}), [((), TE)], f'Note(<{nm}>, (1, 4))')
                for cl, cn in ((Writer, 'MIDIWriter'), (Reader, 'MIDIReader')):
                    c.demand('middle c forms', c.run(st, cl, [], {'middle_c': x}), [((), TE)], f'{cn}(middle_c=<{nm}>)')
            c.demand('tone from a non-integer', c.run(st, c.Tone, [x]), [((), EXC_V)], f'Tone(<{nm}>)')
            if nm in ('tone', 'note', 'none', 'float', 'whole float', 'class'):
                c.demand('note with a wrong duration', c.run(st, c.Note, [N(60), x]), [((), TE)], f'Note(60, <{nm}>)')
                c.demand('note with a wrong duration', c.method(st, w['note'], 'with_duration', [x]), [((), TE)], f'note.with_duration(<{nm}>)')
                c.demand('track signature forms', c.run(st, c.Track, [x]), [((), TE)], f'Track(<{nm}>)')
                if nm != 'none':
                    c.demand('track position forms', c.method(st, w['track'], 'add', [w['note'], x]), [((), TE)], f'add(note, <{nm}>)')
            elif nm in ('signature', 'list', 'pair'):
                D34 = ('sig', Poly.const(3), Poly.const(4))
                c.demand('note duration pair', c.run(st, c.Note, [N(60), x]), [((), ('note', ('tone', Poly.const(60)), D34, ('f', 0.75)))], f'Note(60, <{nm}>)')
                c.demand('note duration pair', c.method(st, w['note'], 'with_duration', [x]), [((), ('note', ('tone', Poly.const(60)), D34, ('f', 0.5)))], f'note.with_duration(<{nm}>)')
                c.demand('track signature forms', c.run(st, c.Track, [x]), [((), ('trk', D34, []))], f'Track(<{nm}>)')
                outs = []
                for o in c.method(st, w['track'], 'add', [w['note'], x]):
                    outs += [o] if o.exc is not None else [type(o)(o.st, w['track'])]
                c.demand('track position forms', outs, [((), ('trk', ('sig', Poly.const(4), Poly.const(4)), [(('sigv', ONE * Fraction(3, 4)), ('note', ('tone', Poly.const(60)), D34, ('f', 0.5)))]))], f'add(note, <{nm}>)')
        c.guard('values of the wrong kind', wrong)
    for x in (0, 1, 2, 4, 8, 64, 1024, 2 ** 31, 2 ** 40, 2 ** 64, 2 ** 100, -1, -2, -4, -2 ** 40):
        for y in (0, 1, 5, 2 ** 70, -1, -2 ** 70):
            def exact():
                ok = x > 0 and y >= 0
                c.demand('signature construction', c.run(c.state(), c.Signature, [], {'nominator': N(y), 'denominator': N(x)}),
                         [((), ('sig', Poly.const(y), Poly.const(x)) if ok else EXC_V)], f'Signature({y}, {x})')
            c.guard('signature construction', exact)
    for x in list(range(-3, 66)) + [127, 255, 256, 257, 1023, 2 ** 40 - 1, 2 ** 40 + 1, 2 ** 64 - 1, 2 ** 64 + 2 ** 63, 2 ** 64 + 1, 3 * 2 ** 64]:
        c.guard('signature construction', lambda: c.demand('signature construction', c.run(c.state(), c.Signature, [N(1), N(x)]),
                                                           [((), ('sig', ONE, Poly.const(x)) if x > 0 and x & (x - 1) == 0 else EXC_V)], f'Signature(1, {x})'))
    for k, lo, hi in (('pulses_per_quarter', 1, 32767), ('channel', 0, 15)):
        for x in (-40000, -32768, -129, -17, -16, -1, 0, 1, 2, 14, 15, 16, 17, 31, 96, 127, 128, 255, 256, 480, 960, 32766, 32767, 32768, 40000, 65535, 65536, 2 ** 31):
            c.guard('writer parameters', lambda: c.demand('writer parameters', c.run(c.state(), Writer, [], {k: N(x)}),
                                                          [((), ('any',) if lo <= x <= hi else EXC_V)], f'MIDIWriter({k}={x})'))
    BADPAIR = ('exc', ('TypeError', 'ValueError'))

    def pairs(xs, form):
        """durations, signatures and positions that are no pairs"""
        st, w = things(c.state())
        items = [N(x) for x in xs]

        def x(st):
            if form == 'tuple':
                return st, T(items)
            st = st.copy()
            v = c.I.new(st, Lst('list', [El(y) for y in items]))
            if form == 'iter':
                o = c.op(st, 'iter', v)[0]
                return o.st, o.v
            return st, v
        for what, f in (('Note(60, x)', lambda s, v: c.run(s, c.Note, [N(60), v])), ('note.with_duration(x)', lambda s, v: c.method(s, w['note'], 'with_duration', [v])),
                        ('Track(x)', lambda s, v: c.run(s, c.Track, [v])), ('add(note, x)', lambda s, v: c.method(s, w['track'], 'add', [w['note'], v]))):
            s, v = x(st)
            c.demand('no pair', f(s, v), [((), BADPAIR if len(xs) != 2 else ('any',))], f'{what} for {form} {xs}')
    for xs in ((), (1,), (4,), (1, 4, 4), (3, 4, 1), (1, 4, 0), (1, 2, 3, 4), (0, 1), (3, 8)):
        for form in ('tuple', 'list', 'iter'):
            c.guard('no pair', pairs, xs, form)

    def whole(v, how):
        """the bounds of the velocity written as integers"""
        st, w = things(c.state())
        outs = c.run(st, c.Note, [N(60), T([N(3), N(4)]), N(v)]) if how == 'new' else c.method(st, w['note'], 'with_velocity', [N(v)])
        if v in (0, 1):
            res = []
            for o in outs:
                res += [o] if o.exc is not None else [y for s, r in [c.one(o.st, c.Note, [N(60), T([N(3), N(4)]), K(float(v))])] for y in c.op(s, '==', o.v, r)]
            c.demand('velocity bounds', res, [((), ('c', True))], f'velocity {v} ({how}) is velocity {float(v)}')
        else:
            c.demand('velocity bounds', outs, [((), EXC_V)], f'velocity {v} ({how})')
    for v in (0, 1, 2, -1, 127, 100):
        for how in ('new', 'with'):
            c.guard('velocity bounds', whole, v, how)
    gen_ops.sequences(c, 'calls in sequence', 'c03' + '.ops', (('sig', 'badsig'), ('note', 'badnote'), ('badtone', 'note'), ('note', 'badnote', 'badtone', 'sig', 'badsig', 'nvel', 'bad')), 600, 6000)


BASE = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}
UP = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
DOWN = ['C', 'Db', 'D', 'Eb', 'E', 'F', 'Gb', 'G', 'Ab', 'A', 'Bb', 'B']
GARBAGE = ['', ' ', 'H', 'c', 'c4', 'h4', 'C4 ', ' C4', 'C4\n', '\nC4', 'C\n', 'C4x', 'C4#', 'C4b', 'C#4#', '4C', '4', '#', 'b', 'b4', '#4',
           'C--1', 'C+1', 'C4.0', 'Cb-', 'C-', 'C#-', 'CC', 'CD4', 'C 4', 'C# 4', 'Db3 ', 'X', 'Cx4', 'Cis', 'C4-', 'C4-1', 'C4 D4',
           'C\u266f4', 'C\u266d', 'CB', 'Z9', '-1', 'A,', 'A4,', 'Bb4/', 'C_4', 'C1_0', 'do', 'C4\x00', 'C\t4', 'C~', 'I4', '@4']


@prop('C04')
def c04(c):
    fn = lambda: c.attr(c.state(), c.Tone, 'from_notation')[0].v
    import itertools
    accs = [''.join(x) for k in range(4) for x in itertools.product('#b', repeat=k)] + ['#b#bb#', 'bbbbb', '######']
    long = ['#' * k for k in (7, 8, 11, 12, 13, 16, 17, 24, 25, 40, 100, 130, 260)] + ['b' * k for k in (7, 11, 12, 13, 24, 25, 40, 100, 260)] + \
        ['#' * 13 + 'b' * 2, 'b' * 20 + '#' * 7, '#b' * 15, 'b#' * 15 + 'b', '#' * 30 + 'b' * 30]
    octs = ['', '0', '4', '-1', '-2', '9', '10', '-11', '123', '04', '-0']
    i = 0
    for l in BASE:
        for a in accs:
            for j, o in enumerate(octs):
                i += 1
                if c.tier == 'quick' and len(a) > 1 and (i % 3) and l not in 'BC':
                    continue
                txt = l + a + o
                val = BASE[l] + a.count('#') - a.count('b') + 12 * int(o or 0)
                c.guard('notation value', lambda: c.demand('notation value', c.run(c.state(), fn(), [K(txt)]), [((), ('tone', Poly.const(val)))],
                                                           f'from_notation({txt!r})'))
    for l, a, o in [(x, y, z) for x in 'CB' for y in long for z in ('', '4', '-3')] + \
            [(x, y, z) for x in 'CFB' for y in ('', '#', 'b', 'bb') for z in ('-9', '-10', '11', '12', '15', '20', '99', '100', '-100', '1000', '99999', '-99999',
                                                                             '007', '-03', '00', '2147483648', '9007199254740993')]:
        txt = l + a + o
        val = BASE[l] + a.count('#') - a.count('b') + 12 * int(o or 0)
        c.guard('notation value', lambda: c.demand('notation value', c.run(c.state(), fn(), [K(txt)]), [((), ('tone', Poly.const(val)))],
                                                   f'from_notation({txt!r})'))
    for txt in GARBAGE:
        c.guard('notation rejected', lambda: c.demand('notation rejected', c.run(c.state(), fn(), [K(txt)]), [((), EXC_V)], f'from_notation({txt!r})'))
    for r in range(12):
        def fmt():
            st, q = c.int_(c.state(), 'octave')
            st, t = c.tone(st, q * 12 + r)
            up = ('s', mkstr([UP[r], ('fmt', N(q), '')]))
            down = ('s', mkstr([DOWN[r], ('fmt', N(q), '')]))
            c.demand('notation written', c.method(st, t, 'to_notation', []), [((), up)], f'Tone(12*octave+{r}).to_notation()')
            c.demand('notation written', c.method(st, t, 'to_notation', [FALSE]), [((), up)], f'Tone(12*octave+{r}).to_notation(False)')
            c.demand('notation written', c.method(st, t, 'to_notation', [], {'transpose_down': TRUE}), [((), down)], f'Tone(12*octave+{r}).to_notation(transpose_down=True)')
            c.demand('notation written', c.op(st, 'str', t), [((), up)], f'str(Tone(12*octave+{r}))')
        c.guard('notation written', fmt)
        for q in (-2, -1, 0, 4, 10):
            def rt():
                for kw in ({}, {'transpose_down': TRUE}):
                    st, t = c.tone(c.state(), 12 * q + r)
                    for o in c.method(st, t, 'to_notation', [], kw):
                        if o.exc is None:
                            c.demand('notation round trip', c.run(o.st, fn(), [o.v]), [((), ('tone', Poly.const(12 * q + r)))], f'{o.v!r}')
            c.guard('notation round trip', rt)
    gen_ops.sequences(c, 'notations in sequence', 'c04' + '.ops', (('parse', 'bad'), ('name', 'text'), ('parse', 'bad', 'name', 'text', 'trans')), 600, 6000)


FNS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
CMPOPS = ('<', '<=', '>', '>=', '==', '!=')


@prop('C05')
def c05(c):
    def trans():
        st, p = c.int_(c.state(), 'p')
        st, t = c.tone(st, p)
        st, x = c.int_(st, 'x')
        c.demand('tone transposition', c.method(st, t, 'transposed', [N(x)]), [((), ('tone', p + x))], 'Tone(p).transposed(x)')
    c.guard('tone transposition', trans)
    for r in range(12):
        def octv():
            st, q = c.int_(c.state(), 'octave')
            st, t = c.tone(st, q * 12 + r)
            c.demand('octave', c.attr(st, t, 'octave'), [((), ('i', q))], f'Tone(12*octave+{r}).octave')
        c.guard('octave', octv)

    def freq():
        st, p = c.int_(c.state(), 'p', -1000, 1000)
        st, t = c.tone(st, p)
        st, b = c.flt(st, 'base', 1e-3, 1e6)
        ex = Atom('fpow', (Atom('fconst', (2.0,), 'float'), Atom('fdiv', (Atom('ffromint', (p - 57,), 'float'), Atom('fconst', (12.0,), 'float')), 'float')), 'float')
        c.demand('frequency', c.method(st, t, 'to_frequency', [F(b)]), [((), ('f', Atom('fmul', (ex, b), 'float')))], 'Tone(p).to_frequency(base)')
        c.demand('frequency', c.method(st, t, 'to_frequency', [], {'base': F(b)}), [((), ('f', Atom('fmul', (ex, b), 'float')))], 'Tone(p).to_frequency(base=base)')
        c.demand('frequency', c.method(st, t, 'to_frequency', []), [((), ('f', Atom('fmul', (Atom('fconst', (440.0,), 'float'), ex), 'float')))], 'Tone(p).to_frequency()')
    c.guard('frequency', freq)
    for q, hz in ((57, 440.0), (69, 880.0), (45, 220.0), (9, 27.5), (105, 7040.0), (-3, 13.75)):
        c.guard('frequency of A', lambda: c.demand('frequency of A', c.method(*c.tone(c.state(), q), 'to_frequency', []), [((), ('f', hz))], f'Tone({q}).to_frequency()'))
    for p in (-63, -3, 45, 57, 58, 60, 69, 81, 105, 57 + 12 * 20, 57 - 12 * 20):
        for x in (0.0, -0.0, 1.0, -1.0, -440.0, 0, 1, 2, -2, 3, 256, 415.0, 432.0, 440, 442, 442.5, 5e-324, 1e-3, 1e5, 2.0 ** 60, float('inf'), float('-inf')):
            if (p - 57) % 12 and x not in (0.0, float('inf'), float('-inf')):
                continue
            hz = x * 2.0 ** ((p - 57) / 12)

            def based():
                b = K(x) if isinstance(x, float) else N(x)
                c.demand('frequency for a base', c.method(*c.tone(c.state(), p), 'to_frequency', [b]), [((), ('f', hz))], f'Tone({p}).to_frequency({x})')
                c.demand('frequency for a base', c.method(*c.tone(c.state(), p), 'to_frequency', [], {'base': b}), [((), ('f', hz))], f'Tone({p}).to_frequency(base={x})')
            c.guard('frequency for a base', based)
    for op in CMPOPS:
        def cmp_():
            st, p = c.int_(c.state(), 'p')
            st, q = c.int_(st, 'q')
            st, a = c.tone(st, p)
            st, b = c.tone(st, q)
            c.demand(f'tone {op}', c.op(st, op, a, b), [((), ('b', cmp_cond(op, p, q)))], f'Tone(p) {op} Tone(q)')
            c.demand(f'tone {op}', c.op(st, op, a, a), [((), ('b', op in ('<=', '>=', '==')))], f't {op} t')
        c.guard(f'tone {op}', cmp_)

    def compose():
        st, p = c.int_(c.state(), 'p')
        st, t = c.tone(st, p)
        st, x = c.int_(st, 'x')
        for o in c.method(st, t, 'transposed', [N(x)]):
            if o.exc is None:
                c.demand('transposing back', c.method(o.st, o.v, 'transposed', [N(-x)]), [((), ('tone', p))], 't.transposed(x).transposed(-x)')
    c.guard('transposing back', compose)
    import random
    rnd = random.Random(c.seed + 105)
    vals = [-1000, -129, -61, -60, -25, -24, -13, -12, -11, -1, 0, 1, 5, 11, 12, 13, 23, 24, 59, 60, 61, 126, 127, 128, 129, 255, 256, 1000, 2 ** 31, -2 ** 31, 2 ** 53 + 1, 2 ** 64]
    for i in range(300 if c.tier == 'quick' else 4000):
        def points():
            p, x = rnd.choice(vals), rnd.choice(vals)
            if i % 3 == 0:
                x = p + rnd.choice((0, 1, -1, 12, -12))
            st, t = c.tone(c.state(), p)
            st, u = c.tone(st, x)
            c.demand('tone transposition', c.method(st, t, 'transposed', [N(x)]), [((), ('tone', Poly.const(p + x)))], f'Tone({p}).transposed({x})')
            c.demand('octave', c.attr(st, t, 'octave'), [((), ('i', Poly.const(p // 12)))], f'Tone({p}).octave')
            for op, f in FNS.items():
                c.demand(f'tone {op}', c.op(st, op, t, u), [((), ('c', f(p, x)))], f'Tone({p}) {op} Tone({x})')
        c.guard('given tones', points)
    gen_ops.sequences(c, 'tones in sequence', 'c05' + '.ops', (('octave', 'trans'), ('tcmp', 'trans'), ('freq', 'trans'), ('octave', 'tcmp', 'freq', 'trans', 'name')), 600, 6000)


@prop('C06')
def c06(c):
    def derived():
        st, nt, ob = c.symnote(c.state(), 'n')
        st, x = c.int_(st, 'x')
        st, s, n, d = c.symsig(st, 's')
        st, v = c.flt(st, 'v', 0.0, 1.0)
        p = ob[1][1]
        c.demand('transposed note', c.method(st, nt, 'transposed', [N(x)]), [((), ('note', ('tone', p + x), ob[2], ob[3]))], 'note.transposed(x)')
        c.demand('note with duration', c.method(st, nt, 'with_duration', [s]), [((), ('note', ob[1], ('sig', n, d), ob[3]))], 'note.with_duration(s)')
        c.demand('note with duration', c.method(st, nt, 'with_duration', [T([N(n), N(d)])]), [((), ('note', ob[1], ('sig', n, d), ob[3]))], 'note.with_duration((n, d))')
        c.demand('note with velocity', c.method(st, nt, 'with_velocity', [F(v)]), [((), ('note', ob[1], ob[2], ('f', v)))], 'note.with_velocity(v)')
    c.guard('derived notes', derived)
    for v in (0.0, 1.0):
        def extreme():
            st, nt, ob = c.symnote(c.state(), 'n')
            c.demand('note with velocity', c.method(st, nt, 'with_velocity', [K(v)]), [((), ('note', ob[1], ob[2], ('f', v)))], f'note.with_velocity({v})')
            st, nt, ob = c.symnote(c.state(), 'n', vel=v)
            st, x = c.int_(st, 'x')
            c.demand('transposed note', c.method(st, nt, 'transposed', [N(x)]), [((), ('note', ('tone', ob[1][1] + x), ob[2], ob[3]))], f'transposed, velocity {v}')
            c.demand('note with duration', c.method(st, nt, 'with_duration', [T([N(0), N(1)])]), [((), ('note', ob[1], ('sig', ZERO, ONE), ob[3]))], f'with_duration((0, 1)), velocity {v}')
        c.guard('derived notes', extreme)

    kinds = ((None, None), (1, 3), (2, 0)) if c.tier == 'quick' else ((None, None), (0, 0), (1, 3), (2, 0), (4, 2))
    for op in CMPOPS:
        for k1, k2 in kinds:
            def cmp_():
                st, a, o1 = c.symnote(c.state(), 'a', k=k1)
                st, b, o2 = c.symnote(st, 'b', k=k2)
                p, q = o1[1][1], o2[1][1]
                v1, v2 = v_of(*o1[2][1:]), v_of(*o2[2][1:])
                f1, f2 = o1[3][1], o2[3][1]
                less, greater, eq = (op in ('<', '<=', '!=')), (op in ('>', '>=', '!=')), op in ('<=', '>=', '==')
                E, L = (lambda x, y: Cond('eq0', x - y)), (lambda x, y: Cond('lt0', x - y))
                cases = [((L(p, q),), less), ((L(q, p),), greater),
                         ((E(p, q), L(v1, v2)), less), ((E(p, q), L(v2, v1)), greater),
                         ((E(p, q), E(v1, v2), Cond('flt', f1, f2)), less), ((E(p, q), E(v1, v2), Cond('flt', f2, f1)), greater),
                         ((E(p, q), E(v1, v2), Cond('feq', f1, f2)), eq)]
                c.demand(f'note {op}', c.op(st, op, a, b), [(cs, ('b', r)) for cs, r in cases], f'a {op} b')
            c.guard(f'note {op}', cmp_)
    import random
    rnd = random.Random(c.seed + 106)
    for i in range(200 if c.tier == 'quick' else 3000):
        def points():
            def a_note():
                n, d = a_sig(rnd, 1)
                return rnd.choice((-12, -1, 0, 1, 12, 60, 127, 2 ** 40)), n, d, rnd.choice((0.0, 5e-324, 0.1, 0.3, 0.30000000000000004, 0.5, 0.75, 1 - 2 ** -53, 1.0))
            a = a_note()
            p, n, d, v = b = a_note()
            how = i % 6
            if how == 1:
                b = (a[0], n, d, v)
            elif how == 2:
                k = 2 ** rnd.randrange(0, 5)
                b = (a[0], a[1] * k, a[2] * k, v)
            elif how == 3:
                b = (p, a[1], a[2], a[3])
            elif how == 4:
                k = 2 ** rnd.randrange(0, 5)
                b = (a[0], a[1] * k, a[2] * k, a[3])
            elif how == 5:
                k = 2 ** rnd.randrange(1, 12)
                b = (a[0], a[1] * k + 1, a[2] * k, a[3])
            st, refs = c.state(), []
            for p, n, d, v in (a, b):
                st, t = c.tone(st, p)
                st, s = c.sig(st, n, d)
                st, r = c.note(st, t, s, v)
                refs.append(r)
            x, y = ((p, Fraction(n, d), v) for p, n, d, v in (a, b))
            for op, f in FNS.items():
                c.demand(f'note {op}', c.op(st, op, refs[0], refs[1]), [((), ('c', f(x, y)))], f'Note{a} {op} Note{b}')
            ob = lambda p, n, d, v: ('note', ('tone', Poly.const(p)), ('sig', Poly.const(n), Poly.const(d)), ('f', v))
            c.demand('transposed note', c.method(st, refs[0], 'transposed', [N(b[0])]), [((), ob(a[0] + b[0], *a[1:]))], f'Note{a}.transposed({b[0]})')
            c.demand('note with duration', c.method(st, refs[0], 'with_duration', [T([N(b[1]), N(b[2])])]), [((), ob(a[0], b[1], b[2], a[3]))], f'Note{a}.with_duration({b[1:3]})')
            c.demand('note with velocity', c.method(st, refs[0], 'with_velocity', [K(b[3])]), [((), ob(*a[:3], b[3]))], f'Note{a}.with_velocity({b[3]})')
        c.guard('given notes', points)
    gen_ops.sequences(c, 'notes in sequence', 'c06' + '.ops', (('ncmp', 'nder'), ('ntrans', 'ndur', 'nvel'), ('ncmp', 'nder', 'ntrans', 'ndur', 'nvel', 'cmp', 'tcmp'), ('nder',)), 600, 6000)
