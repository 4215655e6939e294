"""Convenience functions; independence of calls."""
from props import prop
from props_core import EXC_V, v_of
from props_read import *
import gen_midi
import gen_hist
import gen_ops
from check import Out
from props_misc import CHORDS
from oblig import *


def then(outs, f, keep=False):
    """continue every outcome with f(state) -> outcomes; failures are kept unless keep"""
    res = []
    for o in outs:
        if o.exc is not None and not keep:
            res.append(o)
        else:
            res += f(o.exc.st if o.exc is not None else o.st)
    return res


@prop('C22', extra=SUPPORT)
def c22(c):
    c.I.loop_bound, c.I.small = 16, 2
    M = 'melodia.io.midi'
    D, DS, L, LS = (c.mod(M, n) for n in ('dump', 'dumps', 'load', 'loads'))
    S_, G, SRC = (c.mod('_support', n) for n in ('Sink', 'sink_bytes', 'Source'))
    specs = ([], [((0, 1), (1, 4))], [((1, 4), (1, 8), 3), ((0, 1), (3, 4), 7), ((1, 2), (1, 4))])

    def write(spec, how, bpm, ch):
        outs, t, items = song(c, c.state(), spec)
        kw, b_ = {}, 120.0
        pos = []
        if bpm == 'sym':
            st, a = c.flt(outs[0].st, 'bpm', 4.0, 1e6)
            outs[0].st = st
            kw['bpm'], b_ = F(a), a
        elif bpm is not None:
            kw['bpm'], b_ = (K(bpm) if isinstance(bpm, float) else N(const(bpm))), bpm
        if ch is not None:
            kw['channel'] = N(const(ch))
        exp = ('y', file_of(96, body_of(items, 96, ch or 0, bpm=b_)))
        if how == 'dumps':
            res = then(outs, lambda s: c.run(s, DS, [t], kw))
        elif how == 'positional':
            if len(kw) < 2:
                return
            res = then(outs, lambda s: c.run(s, DS, [t, kw['bpm'], kw['channel']]))
        else:
            def go(s):
                s, f = c.one(s, S_, [])
                return then(c.run(s, D, [t, f], kw), lambda s: c.run(s, G, [f]))
            res = then(outs, go)
        c.demand('dump and dumps', res, [((), exp)], f'{how} of {len(spec)} notes, bpm {bpm}, channel {ch}')
    for spec in specs:
        for how in ('dumps', 'positional', 'dump'):
            for bpm, ch in ((None, None), (90.0, None), (None, 9), (33, 15), ('sym', 3)):
                c.guard('dump and dumps', write, spec, how, bpm, ch)

    def bad():
        outs, t, items = song(c, c.state(), specs[1])
        st, x = c.int_(outs[0].st, 'x')
        c.demand('bad channel', c.run(st, DS, [t], {'channel': N(x)}),
                 [((Cond('lt0', x),), EXC_V), ((Cond('lt0', 15 - x),), EXC_V), ((Cond('le0', -x), Cond('le0', x - 15)), ('any',))], 'dumps(track, channel=x)')
    c.guard('bad channel', bad)

    def read(ch, how):
        B = Bytes(c)
        p, q, v, w = B(127, 0, 'p'), B(127, 0, 'q'), B(126, 1, 'v'), B(126, 1, 'w')
        y = mfile([b'\0\xff\x58\4\3\2\x18\x08'] + [b'\x10'] + on_(2, p, v) + [b'\x10'] + off_(2, p) + [b'\x08'] + on_(5, q, w) + [b'\x20'] + off_(5, q) + [END])
        a, b_ = rnote(16, 32, p, v), rnote(40, 72, q, w)
        sg = ('sig', const(3), const(4))
        exp = {None: rtrack([a, b_], sg), 2: rtrack([a], sg), 5: rtrack([b_], sg)}.get(ch, EXC_V)
        kw = {} if ch is None else {'channel': N(const(ch))}
        pos = [] if ch is None else [N(const(ch))]
        if how == 'loads':
            res = c.run(B.st, LS, [y], kw)
        elif how == 'positional':
            res = c.run(B.st, LS, [y] + pos)
        else:
            st, f = c.one(B.st, SRC, [y])
            res = c.run(st, L, [f], kw)
        c.demand('load and loads', res, [((), exp)], f'{how}, channel {ch}')
    for how in ('loads', 'positional', 'load'):
        for ch in (None, 0, 2, 5, 15):
            c.guard('load and loads', read, ch, how)

    def broken():
        for y in (b'', b'MThd', b'MThd\0\0\0\6\0\1\0\1\0\x60MTrk\0\0\0\4' + END):
            c.demand('load and loads', c.run(c.state(), LS, [K(y)]), [((), PARSE)], f'loads({y!r})')
            st, f = c.one(c.state(), SRC, [K(y)])
            c.demand('load and loads', c.run(st, L, [f]), [((), PARSE)], f'load({y!r})')
    c.guard('load and loads', broken)

    def round_trip():
        outs, t, items = song(c, c.state(), [((0, 1), (1, 4), 0), ((1, 4), (1, 8), 4)])
        st = outs[0].st
        for it in items:
            st = c.assume(st, Cond('fle', 0.01, it[3]), Cond('fle', it[3], 0.99))
        outs[0].st = st
        res = []
        for o in then(outs, lambda s: c.run(s, DS, [t])):
            res += [o] if o.exc is not None else c.run(o.st, LS, [o.v])
        c.demand('loads(dumps(track))', res, [((), ('track', SIG44, [item(const(p), ('note', ('tone', q), ('sigv', const(d)), vback(v))) for p, d, q, v in items]))], 'two notes')
    c.guard('loads(dumps(track))', round_trip)

    import random

    def generated_write(i):
        rnd = random.Random(f'{c.seed}.c22.{i}')
        r = dict(random_spec(rnd))
        sh = 36 - r['mc']
        r.update(ppq=96, mc=36, spec=[(p, d, None if q is None else q + sh, v) for p, d, q, v in r['spec']])
        outs, t, exp, kw, items = random_song(c, r)
        how = rnd.choice(('dumps', 'positional', 'dump', 'dump positional', 'mixed'))
        if how == 'dumps':
            res = then(outs, lambda s: c.run(s, DS, [], {'track': t, 'channel': kw['channel'], 'bpm': kw['bpm']}))
        elif how == 'positional':
            res = then(outs, lambda s: c.run(s, DS, [t, kw['bpm'], kw['channel']]))
        elif how == 'mixed':
            res = then(outs, lambda s: c.run(s, DS, [t, kw['bpm']], {'channel': kw['channel']}))
        else:
            def go(s):
                s, f = c.one(s, S_, [])
                if how == 'dump':
                    r = c.run(s, D, [], {'file': f, 'track': t, 'bpm': kw['bpm'], 'channel': kw['channel']})
                else:
                    r = c.run(s, D, [t, f, kw['bpm'], kw['channel']])
                return then(r, lambda s: c.run(s, G, [f]))
            res = then(outs, go)
        c.demand('dump and dumps', res, [((), exp)], f'{how}: {r}')
    for i in range(80 if c.tier == 'quick' else 1200):
        c.guard('dump and dumps', generated_write, i)

    def generated_read(i):
        rnd = random.Random(f'{c.seed}.c22r.{i}')
        B = Bytes(c)
        y, exps, what = generated_file(c, rnd, B)
        ch, exp = rnd.choice(exps)
        args = [] if ch is None else [N(const(ch))]
        kw = {} if ch is None else {'channel': N(const(ch))}
        how = rnd.choice(('loads', 'load', 'positional', 'load positional'))
        if how.startswith('load '):
            st, f = c.one(B.st, SRC, [y])
            res = c.run(st, L, [f] + args)
        elif how == 'load':
            st, f = c.one(B.st, SRC, [y])
            res = c.run(st, L, [f], kw)
        elif how == 'loads':
            res = c.run(B.st, LS, [y], kw)
        else:
            res = c.run(B.st, LS, [y] + args)
        c.demand('load and loads', res, [((), exp)], f'{how}, channel {ch}, {what}')
    for i in range(80 if c.tier == 'quick' else 1200):
        c.guard('load and loads', generated_read, i)
    _c22_more(c)


def value_of(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return N(const(x))
    if isinstance(x, tuple):
        return T([value_of(y) for y in x])
    return NONE if x is None else K(x)


def _c22_more(c):
    """unusual tempos, channels and inputs: the function must do what the class does, whatever that is"""
    M = 'melodia.io.midi'
    D, DS, L, LS, W, R_ = (c.mod(M, n) for n in ('dump', 'dumps', 'load', 'loads', 'MIDIWriter', 'MIDIReader'))
    S_, G, SRC = (c.mod('_support', n) for n in ('Sink', 'sink_bytes', 'Source'))

    def as_class(name, st, cl, ckw, m, margs, mkw, ways, what):
        ref = []
        for o in c.run(st, cl, [], ckw):
            ref += [o] if o.exc is not None else c.method(o.st, o.v, m, margs, mkw)
        if len(ref) != 1:
            return c.record(name, UNDECIDED, 'more than one outcome of the class', None, what)
        (s, exp, where), = c.observed(ref[0])[:1]
        if has_unknown(exp) and exp[0] != 'exc':
            return c.record(name, UNDECIDED, 'unknown outcome of the class', where, what)
        if exp[0] == 'exc':
            exp = ('exc', (exp[1],))
        for how, run in ways:
            c.demand(name, run(st), [((), exp)], f'{how}: {what}')

    def write(bpm, ch, notes):
        st, t = track(c, c.state())
        outs = start(st)
        for i in range(notes):
            s, n = gen_hist.mknote(c, outs[0].st, 30 + i, (1, 4), 0.5)
            outs[0].st = s
            outs = adds(c, outs, t, n, T2(i, 4))
        st = outs[0].st
        b_ = value_of(bpm)
        h = value_of(ch)

        def to_file(s, *a, **k):
            s, f = c.one(s, S_, [])
            return then(c.run(s, D, [t, f] + list(a), k), lambda s: c.run(s, G, [f]))
        as_class('functions and classes', st, W, {'bpm': b_, 'channel': h}, 'dumps', [t], {}, [
            ('dumps', lambda s: c.run(s, DS, [t, b_, h])), ('dumps', lambda s: c.run(s, DS, [t], {'channel': h, 'bpm': b_})),
            ('dump', lambda s: to_file(s, b_, h)), ('dump', lambda s: to_file(s, bpm=b_, channel=h))], f'{notes} notes, bpm {bpm}, channel {ch}')
    for bpm, ch in (('120', 0), ('x', 0), ('', 3), (b'120', 0), (None, 0), (True, 0), (False, 1), (2 ** 1100, 0), (-2 ** 1100, 0), ((120,), 2), (120, None), (120.0, '3'), (90, 3.0), (90, 2.5),
                    (120, True), (60, False), (float('nan'), 0), (float('-inf'), 0), (-0.0, 0), (5e-324, 5)):
        for n in (0, 1):
            c.guard('functions and classes', write, bpm, ch, n)
    for bpm in (0, 0.0, -1, -120.0, 1, 1.0, 3.0, 3.5, 3.6, 4, 119.99999, 120, 120.5, 240, 999.0, 1e4, 6e7, 60000001, 1e9, 1e300, float('inf')):
        for ch in (0, 7, 15, 16, -1):
            c.guard('functions and classes', write, bpm, ch, ch % 3)

    def read(y, ch):
        h = value_of(ch)

        def of_file(s, *a, **k):
            s, f = c.one(s, SRC, [K(y)])
            return c.run(s, L, [f] + list(a), k)
        ways = [('loads', lambda s: c.run(s, LS, [K(y), h])), ('loads', lambda s: c.run(s, LS, [K(y)], {'channel': h})),
                ('load', lambda s: of_file(s, h)), ('load', lambda s: of_file(s, channel=h))]
        if ch is None:
            ways += [('loads', lambda s: c.run(s, LS, [K(y)])), ('load', lambda s: of_file(s))]
        as_class('functions and classes', c.state(), R_, {}, 'loads', [K(y)], {'channel': h}, ways, f'{y!r}, channel {ch}')
    head = b'MThd\0\0\0\6\0\0\0\1\0\x60'
    note = b'\0\x90\x30\x40\x60\x80\x30\0\0\x9f\x31\x40\x60\x8f\x31\0'
    trk = lambda x: b'MTrk' + len(x).to_bytes(4, 'big') + x
    for y in (b'', b'M', head, head[:9], head + trk(END_), head + trk(note + END_), head + trk(note), head + trk(note + END_) + b'junk', b'\0' + head + trk(END_), head + trk(END_)[:-1],
              b'MThd\0\0\0\6\0\2\0\1\0\x60' + trk(END_), head + trk(b'\0\xff\x58\4\3\2\x18\x08' + note + END_), head + b'XXXX\0\0\0\2ab' + trk(note + END_)):
        for ch in (None, 0, 1, 15, 16, -1, 300, '0', 0.0, True, 1.5):
            c.guard('functions and classes', read, y, ch)


END_ = b'\0\xff\x2f\0'


def generated_file(c, rnd, B, broken=0.0):
    """-> bytes, [(channel, expected outcome)], description"""
    spec = gen_midi.a_file(rnd, rnd.choice(('c16', 'c17', 'c18')), rnd.choice((1, 3, 6, 10)))
    body, per, sigs = gen_midi.render(spec, B, b)
    what = gen_midi.text(spec)
    if rnd.random() < broken:
        # not readable: the end of the track is missing
        body = body[:-1]
        y = mkbytes(spec_parts(dict(spec, tail=0), B, body))
        return y, [(ch, PARSE) for ch in (None, 0, 3)], 'no end: ' + what
    y = mkbytes(spec_parts(spec, B, body))
    tpq = spec['tpq']
    if not per:
        per = {0: []}
    of = lambda ch: sigs.get(ch, sigs.get(None, (4, 2)))
    notes = {ch: [rnote(*x, tpq) for x in gen_midi.notes(es)] for ch, es in per.items()}
    top = max((Fraction(x, 2 ** z) for x, z in (of(ch) for ch in per)))
    exps = [(None, ('track', ('sigv', const(top)), [x for ns in notes.values() for x in ns]))]
    for ch in sorted(per):
        sg = of(ch)
        exps.append((ch, ('track', ('sig', const(sg[0]), const(2 ** sg[1])), notes[ch])))
    exps.append((rnd.choice([x for x in range(17) if x not in per]), EXC_V))
    return y, exps, what


def shifted(exp, by):
    """the expected track with every tone moved"""
    if isinstance(exp, tuple) and len(exp) == 2 and exp[0] == 'tone':
        return ('tone', exp[1] + by)
    if isinstance(exp, (tuple, list)):
        return type(exp)(shifted(x, by) for x in exp)
    return exp


@prop('C23', extra=SUPPORT)
def c23(c):
    import random
    from check import Out
    c.I.loop_bound, c.I.small = 16, 2
    M = 'melodia.io.midi'
    W, Rd = c.mod(M, 'MIDIWriter'), c.mod(M, 'MIDIReader')
    S_, G = c.mod('_support', 'Sink'), c.mod('_support', 'sink_bytes')

    def sequence(i):
        """several files read and several tracks written one after the other, readers and writers used again and again"""
        rnd = random.Random(f'{c.seed}.c23.{i}')
        B = Bytes(c, rnd=rnd if i % 2 else None)
        fs = [generated_file(c, rnd, B, 0.3) for _ in range(rnd.choice((2, 3)))]
        st, r0 = c.one(B.st, Rd, [])
        mc = rnd.choice((24, 48, 48, 35, 37, 60))
        st, r1 = c.one(st, Rd, [N(const(mc))])
        st, nt = gen_hist.mknote(c, st, 3, (1, 4), 0.5)
        outs = start(st)
        steps = [rnd.randrange(len(fs)) for _ in range(rnd.choice((3, 4, 5)))]
        if rnd.random() < 0.3:
            steps = [steps[0]] * len(steps)
        for j, k in enumerate(steps):
            y, exps, what = fs[k]
            ch, exp = rnd.choice(exps)
            how = rnd.choice(('same', 'same', 'new', 'loads', 'other', 'other'))

            def go(s):
                kw = {} if ch is None else {'channel': N(const(ch))}
                if how == 'loads':
                    return c.run(s, c.mod(M, 'loads'), [y], kw)
                r = r0
                if how == 'new':
                    s, r = c.one(s, Rd, [])
                return c.method(s, r1 if how == 'other' else r, 'loads', [y], kw)
            outs = then(outs, go, keep=True)
            c.demand('reading does not depend on what was read before', outs, [((), shifted(exp, mc - 36) if how == 'other' else exp)],
                     f'file {k} (channel {ch}, {how}) after files {steps[:j]}: {what}')
            if rnd.random() < 0.6:
                # the track that was read gets another note, somewhere
                outs = [y for x in outs for y in ([x] if x.exc is not None else c.method(x.st, x.v, 'add', [nt, T2(rnd.randrange(9), 4)]))]
    for i in range(150 if c.tier == 'quick' else 1500):
        c.guard('reading does not depend on what was read before', sequence, i)

    def given(i):
        """files of given bytes, broken or not, read in any order and again"""
        rnd = random.Random(f'{c.seed}.c23g.{i}')
        fs = []
        while len(fs) < rnd.choice((2, 3, 4)):
            d = given_bytes(c, rnd, gen_midi.a_file(rnd, rnd.choice(('c16', 'c17', 'c18')), rnd.choice((1, 2, 4, 6))))
            if rnd.random() < 0.7:
                d = damaged(rnd, d, 1) if rnd.random() < 0.3 else resized(d, damaged(rnd, track_body(d), rnd.choice((1, 2)), 0))
            if by_reference(d) is not None:
                fs.append(d)
        st, r0 = c.one(c.state(), Rd, [])
        outs = start(st)
        steps = [rnd.randrange(len(fs)) for _ in range(rnd.choice((3, 5, 7)))]
        for j, k in enumerate(steps):
            ch = rnd.choice((None, None, 0, rnd.randrange(16)))
            r = gen_midi.reference(fs[k])
            if r[0] == 'tracks' and r[2] and rnd.random() < 0.7:
                ch = rnd.choice([None] + list(r[2]))

            mc = rnd.choice((None, None, None, 48, 24, 36, 60))

            def go(s):
                if mc is not None:
                    s, r = c.one(s, Rd, [N(const(mc))])
                    c.reuse(s, [r0], [r])
                return c.method(s, r0 if mc is None else r, 'loads', [K(fs[k])], {} if ch is None else {'channel': N(const(ch))})
            outs = then(outs, go, keep=True)
            exp = by_reference(fs[k], ch)
            c.demand('reading does not depend on what was read before', outs, [((), exp if mc is None else shifted(exp, mc - 36))], f'{fs[k].hex()} (channel {ch}) after files {steps[:j]} of {[x.hex() for x in fs]}')
    for i in range(100 if c.tier == 'quick' else 1500):
        c.guard('reading does not depend on what was read before', given, i)

    def written(i):
        rnd = random.Random(f'{c.seed}.c23w.{i}')
        base = random_spec(rnd)
        st, songs_ = c.state(), []
        for j in range(rnd.choice((2, 3))):
            r = random_spec(rnd)
            sh = base['mc'] - r['mc']
            r = dict(r, ppq=base['ppq'], mc=base['mc'], ch=base['ch'], bpm=base['bpm'], spec=[(p, d, None if q is None else q + sh, v) for p, d, q, v in r['spec']])
            if j == 1 and rnd.random() < 0.4:
                r['spec'] = [((0, 1), (1, 4), 500, 0.5)] + r['spec']        # cannot be written
            outs, t, exp, kw, items = random_song(c, r, st, f'{j}.')
            if r['spec'] and r['spec'][0][2] == 500:
                exp = EXC_V
            st = outs[0].st
            songs_.append((t, exp, items))
        st, w0 = writer(c, st, **kw)
        outs = start(st)
        steps = [rnd.randrange(len(songs_)) for _ in range(rnd.choice((2, 3, 4)))]
        for j, k in enumerate(steps):
            t, exp, items = songs_[k]
            same = rnd.random() < 0.7

            def go(s):
                w = w0
                if not same:
                    s, w = writer(c, s, **kw)
                return c.method(s, w, 'dumps', [t])
            outs = then(outs, go, keep=True)
            c.demand('writing does not depend on what was written before', outs, [((), exp)], f'track {k} after tracks {steps[:j]}' + (', same writer' if same else ''))
    for i in range(60 if c.tier == 'quick' else 800):
        c.guard('writing does not depend on what was written before', written, i)

    def forgotten(i):
        """tracks and writers that are dropped, and others made where they were"""
        rnd = random.Random(f'{c.seed}.c23f.{i}')
        st = c.state()
        for j in range(4):
            outs, t, exp, kw, items = random_song(c, random_spec(rnd), st, f'{j}.')
            st, w = writer(c, outs[0].st, **kw)
            c.reuse(st, [], [w, t])
            outs = c.method(st, w, 'dumps', [t])
            c.demand('writing does not depend on what was written before', outs, [((), exp)], f'track and writer {j} made where earlier ones were')
            ok = [o for o in outs if o.exc is None]
            if not ok:
                return
            st = ok[0].st
    for i in range(30 if c.tier == 'quick' else 400):
        c.guard('writing does not depend on what was written before', forgotten, i)

    def unknown_times(which, k, kk, same):
        """two tracks with a note each whose time is unknown"""
        st, ts = c.state(), []
        for nm in ('x', 'y'):
            st, x = c.int_(st, nm, 0)
            st, p = c.int_(st, nm + '.pitch', -24, 103)
            st, tn = c.tone(st, p)
            st, s = c.sig(st, *((1, 4) if which == 'pos' else (x * 2 + 1, 2 ** k)))
            st, v = c.flt(st, nm + '.v', 0.0, 1.0)
            st, nt = c.note(st, tn, s, v)
            st, t = track(c, st)
            d = (x * 2 + 1) * Fraction(384, 2 ** k)
            st = c.assume(st, Cond('lt0', d - 2 ** (7 * kk)), Cond('le0', 2 ** (7 * (kk - 1)) - d))
            if st is None:
                return
            st = adds(c, start(st), t, nt, T2(x * 2 + 1, 2 ** k) if which == 'pos' else T2(0, 1))[0].st
            d = st.facts.norm(d)
            if which == 'pos':
                body = prefix(4, 2) + vl(d, kk) + on(0, p, v) + [vlc(96)] + off(0, p) + [END]
            else:
                body = prefix(4, 2) + [b'\0'] + on(0, p, v) + vl(d, kk) + off(0, p) + [END]
            ts.append((t, ('y', file_of(96, body))))
        st, w = writer(c, st)
        outs = c.method(st, w, 'dumps', [ts[0][0]])
        outs = then(outs, lambda s: c.method(s, w, 'dumps', [ts[1][0]]) if same else dumped(c, start(s), ts[1][0]))
        c.demand('writing does not depend on what was written before', outs, [((), ts[1][1])], f'{which} of unknown size after another one' + (', same writer' if same else ''))
    for which in ('pos', 'dur'):
        for k, kk in ((0, 2), (0, 3), (2, 2), (3, 3), (4, 4)):
            for same in (True, False):
                c.guard('writing does not depend on what was written before', unknown_times, which, k, kk, same)
    def files(B):
        """files that differ in everything -> [(name, bytes, {channel: expected})]"""
        p, q, v, w = B(127, 0, 'p'), B(127, 0, 'q'), B(126, 1, 'v'), B(126, 1, 'w')
        out = [
            ('one note', mfile([b'\x10'] + on_(0, p, v) + [b'\x10'] + off_(0, p) + [END]), {None: rtrack([rnote(16, 32, p, v)]), 0: rtrack([rnote(16, 32, p, v)]), 1: EXC_V}),
            ('three four', mfile([b'\0\xff\x58\4\3\2\x18\x08\0\xff\x20\1\1\0\xff\x58\4\6\3\x18\x08\x08'] + on_(1, q, w) + [b'\x08'] + off_(1, q) + [END], 24),
             {None: rtrack([rnote(8, 16, q, w, 24)], ('sig', const(6), const(8))), 1: rtrack([rnote(8, 16, q, w, 24)], ('sig', const(6), const(8))), 0: EXC_V}),
            ('unfinished note', mfile([b'\0'] + on_(0, p, v) + [END]), {None: rtrack([]), 0: rtrack([])}),
            ('only an end', mfile([b'\0'] + off_(0, p, 64) + [END], 480), {None: rtrack([]), 0: rtrack([])}),
            ('no notes', mfile([b'\0\xff\x58\4\5\3\x18\x08', END]), {None: rtrack([], ('sig', const(5), const(8))), 0: rtrack([], ('sig', const(5), const(8)))}),
            ('broken', mkbytes([b'MThd\0\0\0\6\0\0\0\1\0\x60MTrk\0\0\0\4'] + on_(0, p, v) + [b'\0']), {None: PARSE}),
            ('broken header', K(b'MThd\0\0\0\6\0\1\0\1\0\x60'), {None: PARSE}),
            ('running status', mfile([b'\0\xb0\7\7\x10\7\7', END]), {None: rtrack([]), 0: rtrack([])}),
            ('bad running status', mfile([b'\0\7\7', END]), {None: PARSE}),
            ('no header', mkbytes([b'MTrk\0\0\0\4', END]), {None: PARSE}),
            ('unknown F4', mfile([b'\0\xf4', END]), {None: PARSE}),
            ('unknown F7', mfile([b'\0'] + on_(0, p, v) + [b'\0\xf7', END]), {None: PARSE}),
            ('long end', mfile([b'\0\xff\x2f\1\0', END]), {None: PARSE}),
        ]
        return out

    def reading(i, j, fresh):
        """reading file i after file j, with the same reader or another"""
        B = Bytes(c)
        fs = files(B)
        st, r = c.one(B.st, Rd, [])

        def get(s, y, ch, r):
            if fresh:
                s, r = c.one(s, Rd, [])
            return c.method(s, r, 'loads', [y], {} if ch is None else {'channel': N(const(ch))})
        for ch2 in list(fs[j][2]):
            for ch, exp in fs[i][2].items():
                outs = get(st, fs[j][1], ch2, r)
                res = then(outs, lambda s: get(s, fs[i][1], ch, r), keep=True)
                c.demand('reading does not depend on what was read before', res, [((), exp)], f'{fs[i][0]} (channel {ch}) after {fs[j][0]}' + ('' if fresh else ', same reader'))
    n = 13
    for i in range(n):
        for j in range(n):
            if n - 3 <= max(i, j) and i != j and (i * 5 + j) % 4:
                continue
            c.guard('reading does not depend on what was read before', reading, i, j, (i + j) % 2 == 1)
            if c.tier != 'quick':
                c.guard('reading does not depend on what was read before', reading, i, j, (i + j) % 2 == 0)

    def writing(s1, s2, same):
        """writing a track after another one was written (or failed to be)"""
        outs, t, items = song(c, c.state(), s1)
        st = outs[0].st
        outs2, t2, items2 = song2(st, s2)
        for o in outs2:
            st, w = writer(c, o.st)
            res = then(c.method(st, w, 'dumps', [t2]), lambda s: c.method(s, w if same else writer(c, s)[1], 'dumps', [t]) if same else dumped(c, start(s), t), keep=True)
            c.demand('writing does not depend on what was written before', res, [((), ('y', file_of(96, body_of(items, 96))))], f'{len(s1)} notes after {len(s2)} notes' + (', same writer' if same else ''))

    def song2(st, spec):
        st, t = track(c, st)
        outs = start(st)
        items = []
        for i, x in enumerate(spec):
            for o in outs[:1]:
                s, r, it = note_(c, o.st, f'm{i}', *x) if not (len(x) > 2 and x[2] == 999) else bad_note(c, o.st, x)
                outs = adds(c, start(s), t, r, T2(*x[0]))
                items.append(it)
        return outs, t, items

    def bad_note(c, st, x):
        st, tn = c.tone(st, 999)
        st, s = c.sig(st, *x[1])
        st, r = c.note(st, tn, s, 0.5)
        return st, r, None
    A = [((0, 1), (1, 4), 5), ((1, 4), (1, 4), 7)]
    Bs = [[], [((1, 2), (1, 4), 5)], [((0, 1), (1, 8), 5), ((3, 1), (1, 8), 5), ((1, 8), (1, 2), 6)], [((0, 1), (1, 4), 5), ((1, 4), (1, 4), 999)]]
    for s2 in Bs:
        for same in (True, False):
            c.guard('writing does not depend on what was written before', writing, A, s2, same)
            c.guard('writing does not depend on what was written before', writing, [], s2, same)

    def twice():
        """the same track twice: to a file and to bytes"""
        outs, t, items = song(c, c.state(), [((1, 4), (1, 8), 3), ((0, 1), (3, 4), 7)])
        st, w = writer(c, outs[0].st)
        exp = ('y', file_of(96, body_of(items, 96)))

        def go(s):
            s, f = c.one(s, S_, [])
            return then(c.method(s, w, 'dump', [t, f]), lambda s: c.run(s, G, [f]))
        c.demand('writing twice', then(c.method(st, w, 'dumps', [t]), go), [((), exp)], 'dump after dumps')
        c.demand('writing twice', then(go(st), lambda s: c.method(s, w, 'dumps', [t])), [((), exp)], 'dumps after dump')
    c.guard('writing twice', twice)

    def tracks():
        """tracks are independent of each other"""
        st, a, oa, da = simple(c, c.state(), 'a')
        st, b_, ob, db = simple(c, st, 'b')
        st, t1 = track(c, st)
        st, t2 = track(c, st)
        outs = adds(c, start(st), t1, a, T2(0, 1))
        c.demand('tracks are independent', whole(c, outs, t2), [((), ('track', SIG44, []))], 'the other track')
        outs = adds(c, outs, t2, b_, T2(1, 4))
        c.demand('tracks are independent', whole(c, outs, t1), [((), ('track', SIG44, [item(const(0), oa)]))], 'first track')
        c.demand('tracks are independent', whole(c, outs, t2), [((), ('track', SIG44, [item(const(Fraction(1, 4)), ob)]))], 'second track')
        for o in outs:
            st, t3 = track(c, o.st)
            c.demand('tracks are independent', whole(c, start(st), t3), [((), ('track', SIG44, []))], 'a new track')
    c.guard('tracks are independent', tracks)

    def read_tracks():
        """a track that was read is independent of the next one that is read"""
        B = Bytes(c)
        fs = files(B)
        st, r = c.one(B.st, Rd, [])
        st, a, oa, da = simple(c, st, 'a')
        for i in (0, 1, 2, 4):
            for o in c.method(st, r, 'loads', [fs[i][1]]):
                if o.exc is not None:
                    continue
                outs = adds(c, start(o.st), o.v, a, T2(7, 1))
                c.demand('tracks that were read are independent', then(outs, lambda s: c.method(s, r, 'loads', [fs[i][1]])), [((), fs[i][2][None])], f'{fs[i][0]} read again after the first track was changed')
    c.guard('tracks that were read are independent', read_tracks)

    def notation():
        T_ = c.Tone.info
        fn = c.attr(c.state(), c.Tone, 'from_notation')[0]
        for first, second, p in (('C4', 'C3', 36), ('Bb2', 'B2', 35), ('F#-1', 'F-1', -7), ('H', 'C0', 0), ('C4', 'C4', 48)):
            outs = c.run(fn.st, fn.v, [K(first)])
            c.demand('notation', then(outs, lambda s: c.run(s, fn.v, [K(second)]), keep=True), [((), ('tone', const(p)))], f'{second} after {first}')
    c.guard('notation', notation)

    def random_then_write():
        """randomising another track does not change what is written"""
        outs, t, items = song(c, c.state(), [((1, 4), (1, 8), 3), ((0, 1), (3, 4), 7)])
        R_ = c.mod('melodia.processing.track', 'randomize_velocities')
        res = then(outs, lambda s: c.run(s, R_, [t, K(0.1)]))
        c.demand('randomising leaves its input', then(res, lambda s: dumped(c, start(s), t)), [((), ('y', file_of(96, body_of(items, 96))))], 'dumps(track) after randomize_velocities(track)')
    c.guard('randomising leaves its input', random_then_write)

    gen_ops.sequences(c, 'operations do not depend on earlier ones', 'c23o', gen_ops.GROUPS, 600, 4000)


@prop('C27', extra=SUPPORT)
def c27(c):
    import random
    c.I.loop_bound, c.I.small = 16, 2
    W = c.mod('melodia.io.midi', 'MIDIWriter')
    name = 'equal tracks written'

    def dumped_by(s, kw, t):
        res = []
        for o in c.run(s, W, [], kw):
            res += [o] if o.exc is not None else c.method(o.st, o.v, 'dumps', [t])
        return res

    def pair(i, size=None):
        rnd = random.Random(f'{c.seed}.c27.{i}')
        sg = rnd.choice(((4, 4), (3, 4), (6, 8), (2, 2), (7, 16)))
        h = gen_hist.a_history(rnd, size or rnd.choice((1, 2, 3, 4, 5, 6, 8, 12)), bool(size) or i % 3 != 2)
        items, end = gen_hist.model(h)
        ppq = rnd.choice((1, 2, 3, 24, 96, 96, 480, 960, 32767))
        kw = {'pulses_per_quarter': N(const(ppq)), 'bpm': K(rnd.choice((60.0, 120.0, 133.3))), 'channel': N(const(rnd.choice((0, 9, 15))))}
        kw['middle_c'] = N(const(rnd.choice((36, 36, 0, 24, -20, 70))))
        st, t = track(c, c.state(), T2(*sg))
        for o in gen_hist.apply(c, st, t, h):
            if o.exc is not None:
                c.demand(name, [o], [((), ('any',))], gen_hist.text(h))
                continue
            s, u = track(c, o.st, T2(*sg))
            o2, h2 = gen_hist.build(c, s, u, items, rnd)
            if rnd.random() < 0.3:
                # all in one go
                s, u = track(c, o.st, T2(*sg))
                its = list(items)
                rnd.shuffle(its)
                pairs = []
                for p, q, d, v in its:
                    k = 2 ** rnd.randrange(0, 3)
                    s, n = gen_hist.mknote(c, s, q, (d.numerator * k, d.denominator * k), v)
                    pairs.append(T([n, T2(p.numerator * k, p.denominator * k)]))
                s = s.copy()
                l = c.I.new(s, Lst('list', [El(x) for x in pairs]))
                r = c.run(s, c.Track, [T2(*sg), l])
                o2, h2 = [Out(x.st, NONE) for x in r if x.exc is None], [('look', 'len')]
                if len(r) != 1 or not o2:
                    c.demand(name, r, [((), ('any',))], 'Track(signature, content)')
                    continue
                u = r[0].v
            for x in o2:
                what = f'{kw} t: {gen_hist.text(h)}; u: {gen_hist.text(h2)}'
                if x.exc is not None:
                    c.demand(name, [x], [((), ('any',))], what)
                    continue
                ref = dumped_by(x.st, kw, t)
                if len(ref) != 1:
                    c.record(name, UNDECIDED, 'more than one outcome', None, what)
                    continue
                got = c.observed(ref[0])
                if len(got) != 1 or got[0][0].imp or has_unknown(got[0][1]) and got[0][1][0] != 'exc':
                    c.record(name, UNDECIDED, 'unknown outcome', None, what)
                    continue
                exp = got[0][1]
                c.demand(name, dumped_by(x.st, kw, u), [((), ('exc', (exp[1],)) if exp[0] == 'exc' else exp)], what)
    for i in range(300 if c.tier == 'quick' else 4000):
        with c.budget(10 ** 6):
            c.guard(name, pair, i)
    for i, n in enumerate((26, 34, 50, 70, 110) if c.tier == 'quick' else (26, 34, 50, 70, 110, 140, 260, 520)):
        with c.budget(10 ** 8):
            c.guard(name, pair, f'crowd{i}', n)
